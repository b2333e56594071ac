ALL = ["inputs"]

prop("E01", "A failed write is never reported as success by the library",
 "Whenever the caller's writer (or write-seeker) returns an error to the library while a box, header, string or copied payload is being written, the public call in progress returns a non-nil error. This holds for whichever of the many small writes fails, for every box type, field shape and alignment.",
 ["inputs", "fault_sequences"], "every write or seek on a caller-supplied sink, at every position, failing",
 "Existing tests write to buffers that never fail; a dropped error on one of the ~100 call sites that reach a sink is invisible to them, and the failing write can be any of thousands in one call.",
 ["marshaller.go", "write.go", "box_info.go", "read.go", "internal/bitio/write.go", "internal/util/io.go", "box_types_iso14496_12.go"],
 [("every write call checks and returns its error", "marshaller.go marshalStruct/marshalSlice/marshalUint/...; write.go; box_info.go WriteBoxInfo"),
  ("bit writer flushes whole octets and returns the sink's error", "internal/bitio/write.go WriteBit/WriteBits")],
 ["Marshal", "WriteBoxInfo", "Writer.StartBox/EndBox/CopyBox", "ReadHandle.ReadData"],
 ("error-flow dataflow over SSA from every write call to every function exit",
  "Decides, for every call site in the library that can reach a sink, that on every feasible path after a failure the enclosing function returns non-nil (or its failing status, which its callers are then held to). Assumes in-memory buffers cannot fail and writers honour io.Writer."))

prop("E02", "A failed read or seek is never reported as success by the library",
 "Whenever the caller's reader returns an error, or delivers fewer bytes than the library needs, while a box, header, payload, string or sample is being read or positioned, the public call in progress returns a non-nil error. The only exception is reaching the end of the input where the next top-level box header would start, which ends the traversal normally.",
 ["inputs", "fault_sequences"], "every read or seek on a caller-supplied source, at every position, failing or being cut short",
 "Tests truncate a few hand-picked boxes and use readers that never fail; each of the ~120 call sites that reach the reader is a separate place where the failure can be dropped.",
 ["marshaller.go", "read.go", "box_info.go", "extract.go", "probe.go", "internal/bitio/read.go", "internal/util/io.go", "box_types_iso14496_12.go", "box_types_metadata.go"],
 [("every read/seek call checks and returns its error", "marshaller.go unmarshal*; read.go; box_info.go ReadBoxInfo; extract.go; probe.go"),
  ("end of input is tolerated only while reading a top-level header", "read.go readBoxStructure")],
 ["ReadBoxStructure", "ReadBoxInfo", "Unmarshal", "ExtractBoxes*", "Probe", "FindIDRFrames"],
 ("error-flow dataflow over SSA from every read or seek call to every function exit",
  "Decides, for every call site in the library that can reach a source, that on every feasible path after a failure the function returns non-nil; end-of-file is tolerated only for a header read in contexts not reachable from a child expansion. A truncated top-level header counts as end of input. Assumes readers honour io.Reader."))

prop("E03", "mp4tool exits with a failing status whenever any step of the command failed",
 "If opening, reading, seeking, parsing, creating, writing or closing any file involved in a dump, psshdump, probe, extract, edit or divide command fails, the process ends with a non-zero exit status. Boxes of an unsupported version may be shown as raw data or skipped by dump and extract; output to the terminal's standard streams by print statements is outside this.",
 ["inputs", "fault_sequences"], "every failing operation in every command, for every input file",
 "The tool's tests run the commands on good inputs and a few bad ones with a working disk; a dropped close or write error leaves a truncated output file and status 0.",
 ["cmd/mp4tool/main.go", "cmd/mp4tool/internal/divide/divide.go", "cmd/mp4tool/internal/dump/dump.go", "cmd/mp4tool/internal/edit/edit.go", "cmd/mp4tool/internal/extract/extract.go", "cmd/mp4tool/internal/probe/probe.go", "cmd/mp4tool/internal/psshdump/psshdump.go"],
 [("errors are returned up to the command's Main, which returns 1", "cmd/mp4tool/internal/*/"),
  ("main passes the command's status to os.Exit", "cmd/mp4tool/main.go main")],
 ["process exit status"],
 ("error-flow dataflow over SSA from every fallible call to os.Exit; typestate for created files",
  "Decides for every error-returning call in the command packages that a failure leads to a non-nil error, a non-zero status or os.Exit(non-zero) on every feasible path, and that created files are closed with the error checked before success. Does not decide what is printed."))

STD = ["box_types_iso14496_12.go", "box_types_iso14496_14.go", "box_types_iso14496_30.go", "box_types_iso23001_5.go", "box_types_iso23001_7.go", "box_types_metadata.go", "box_types_3gpp.go", "box_types_av1.go", "box_types_vp.go", "box_types_opus.go", "box_types_etsi_ts_102_366.go"]

prop("R01", "Every box structure is laid out on the wire as its standard prescribes",
 "For every supported box structure, in every supported version, for all flags, all field values and all traversal contexts (QuickTime, under wave, ...): the fields present are exactly those of the standard, in its order, with its integer widths and signedness, its string encodings, and its element counts. In particular each optional field is present exactly under the condition the standard gives (version, flag bit, entry field, sample-group or protection parameters, remaining data being outside), and each count or variable width is taken from the field the standard names.",
 ["inputs", "configurations"], "every box type, version, flag combination, value of the fields that control presence or counts, and context",
 "Tests encode one or two hand-made examples per box and version; the presence, width and count rules are functions of flags and other fields with far more combinations than that, and encode and decode agree with each other even when both are wrong.",
 STD + ["field.go"],
 [("struct tags give order, width and version/flag conditions", "box_types_*.go"),
  ("custom methods give dynamic conditions, widths and counts", "box_types_*.go GetFieldSize/GetFieldLength/IsOptFieldEnabled")],
 ["bytes written by Marshal", "fields set by Unmarshal"],
 ("abstract interpretation (gated joins, decision diagrams) of the custom field methods and struct tags against a specification table",
  "Compares, for all values, flags and contexts at once, the presence condition, width, sign, encoding and count of each of the ~480 fields of ~130 structures with a table written from the standards. The rules that interpret the tags are decided by R03/R04/R08; custom per-field codecs by R10. Two known findings in HvcC."))

prop("R07", "Each box type selects the right structure and versions in every context",
 "For every box type and every traversal context, the library decodes the structure that is registered last among those whose condition accepts the context, reports it as supported exactly when there is one, and accepts exactly its registered versions (all, if none are listed). The codes the library ships map to the structures and versions of their standards: e.g. an mp4a or enca box is a sample entry, metadata item types are item containers only directly under ilst, data boxes only under an item, 3GPP user-data types only under udta, and numbered boxes under ilst are items exactly when their number is between 1 and the entry count of the keys box. A structure made for a code registered for several types carries that code.",
 ["inputs", "configurations", "histories"], "every code, version and context, and every set of registrations for a code",
 "Tests look up a handful of codes in the empty context; the selection depends on five context flags, on registration order and on a counter taken from the file.",
 ["mp4.go", "anytype.go"] + STD,
 [("last accepting registration wins", "mp4.go getBoxDef"), ("registrations in package initialisers", "box_types_*.go init"), ("type stored in shared structures", "mp4.go New, anytype.go SetType")],
 ["BoxType.IsSupported/IsSupportedVersion/New/GetSupportedVersions", "UnmarshalAny"],
 ("abstract interpretation of the package initialisers and of the lookup functions on symbolic registrations and contexts",
  "Interprets all registrations (loops over constant tables unrolled), evaluates their conditions over all contexts and compares the resulting selection with a table from the standards; interprets the query functions on up to four symbolic registrations of up to two versions and compares the outcome exactly for all of them."))

prop("T01", "Traversal visits every box once, in place, whatever the handler does",
 "For every file and every handler (which may read, decode, expand or seek in any order and leave the reader anywhere): each box is handed out once with its own offset, size, type and path of ancestor types, decoding and copying work on exactly its payload, its first child is read right behind its decoded fields, each next sibling right at the end of the box before, and after the box the reader is at its end. A child is only visited if it lies inside its parent, children are read as long as a header fits, left-over bytes are an error unless the file is QuickTime compatible, and the values of the handler are returned in order, its first error ending the traversal.",
 ["inputs", "histories"], "every box tree, every sequence of calls the handler makes on the handle, every position it leaves the reader at",
 "Tests walk a few well-formed files with handlers that call each operation in the usual order; positions after unusual sequences and children crossing their parent's end are not sampled.",
 ["read.go", "box_info.go"],
 [("reader repositioned to the end of each box", "read.go readBoxStructureFromInternal"), ("child sizes checked against the rest of the parent", "read.go readBoxStructure")],
 ["ReadBoxStructure", "ReadBoxStructureFromInternal", "ReadHandle"],
 ("abstract interpretation of the traversal with a ghost reader position, a havocking handler and loop invariants (linear relations) over it",
  "Interprets the exported traversal functions and the closures of the handle with unknown reader, box and handler; decides positions, sizes, identity of values, paths (depth 1 and 2) and conditions exactly. Decoding is taken to leave the reader behind the decoded bytes. Numeric overflow of sizes is B03's part."))

prop("T03", "Every box is decoded in the context its ancestors and file type define",
 "The context in which a box is decoded and handed to the handler says QuickTime compatible exactly if the file type box before it at the top level lists the brand 'qt  ', under wave/ilst/udta exactly if an ancestor has that type, under a metadata item (and a free-form item) exactly if an ancestor is such an item directly governed by ilst, and carries the entry count of the keys box that precedes it among its siblings or its ancestors' siblings. Extracting boxes together with their payload decodes each at its own payload in its own context.",
 ["inputs", "histories"], "every combination of ancestor types, contexts, siblings and brands",
 "Tests contain one QuickTime file and a few metadata trees; the context has seven fields that depend on all ancestors and on siblings already visited.",
 ["read.go", "extract.go", "box_types_iso14496_12.go"],
 [("context passed down and along siblings", "read.go readBoxStructure/readBoxStructureFromInternal"), ("payload decoded with the box's context", "extract.go ExtractBoxesWithPayload")],
 ["ReadHandle.BoxInfo.Context", "ReadPayload", "ExtractBoxesWithPayload"],
 ("abstract interpretation of the traversal; the context's fields at each handler call compared as decision diagrams with their definition",
  "Compares all seven fields for a root box, three children and three root boxes with unknown types, contexts and brands (further siblings and levels by induction over the same code). Which types are items is decided by R07."))

prop("T04", "Extracting by path returns exactly the matching boxes, in file order",
 "A box is returned exactly when its path (below the given parent, if there is one) equals one of the wanted paths element by element, where the wildcard type matches any type; boxes are descended into exactly when their path is a proper prefix of a wanted path, results come in the order of the file, each once with its own info; the forms that decode return for each of these boxes its info and what its own payload decodes to in its own type, size and context. An empty path is an error and no path at all finds nothing.",
 ["inputs"], "every box tree and every set of wanted paths, wildcards included",
 "Tests extract along a few literal paths from two files; interplay of several paths, wildcards and the parent's own level is sampled at a handful of points.",
 ["extract.go", "read.go", "mp4.go"],
 [("path comparison", "read.go compareWith, mp4.go MatchWith"), ("handler collects and descends", "extract.go ExtractBoxes")],
 ["ExtractBox", "ExtractBoxes", "ExtractBoxWithPayload", "ExtractBoxesWithPayload"],
 ("abstract interpretation of the extraction with unknown box types and wanted paths; results compared as decision diagrams with the definition",
  "Exact for all types (32 bits each) for every combination of path lengths up to 3, one or two wanted paths, with and without parent, one box or two in sequence. Longer paths are assumed to behave alike (the comparison is one loop)."))

prop("W01", "EndBox completes the innermost open box in place, at any nesting depth",
 "For any sequence of StartBox/EndBox calls with arbitrary writes and seeks in between: EndBox rewrites exactly the header of the innermost open box at that box's own start, with its type and the size from there to the current position, touches no other byte, returns the writer to that position, and reports offset, size and header size accordingly. It succeeds exactly when the size still fits the header form reserved by StartBox, and fails otherwise instead of leaving a file with a wrong header. Writer.Write and Writer.Seek pass through unchanged.",
 ["histories", "inputs"], "every nesting of open boxes and every position of the writer before each call",
 "Tests write one small file; sizes beyond 32 bits, 16-byte headers, moved positions and deeper nesting cannot be sampled usefully.",
 ["write.go", "box_info.go"],
 [("stack of open boxes", "write.go StartBox/EndBox"), ("header size re-check", "write.go EndBox")],
 ["Writer.StartBox", "Writer.EndBox", "Writer.Write", "Writer.Seek"],
 ("abstract interpretation of the Writer methods over a ghost writer position and recorded writes, 64-bit values as decision diagrams",
  "Exact for unknown boxes, types and positions over five call sequences with up to three open boxes; deeper nesting by the same stack code. The caller is taken not to modify the BoxInfo StartBox returned; ending a box that was never started is outside it."))

prop("W02", "Box headers are written and read exactly in their three standard forms",
 "For every size, type, header size and position: WriteBoxInfo writes size 0 for a box that extends to the end of the file, a 32-bit size when it fits and the 16-byte header was not asked for, and otherwise 1 and the 64-bit size; it reports the offset, header size and the size for that header. ReadBoxInfo reports exactly the offset, size (up to the end of the input for size 0), header size and type of the header at the reader's position and leaves the reader behind it; it accepts a header exactly if its size covers the header and its end is a valid file offset.",
 ["inputs"], "all 2^64 sizes, all types, header sizes and positions",
 "Tests use a dozen sizes; boundaries of the three forms combined with header sizes and positions are not covered.",
 ["box_info.go"],
 [("choice of the form", "box_info.go WriteBoxInfo"), ("size 0 and 1", "box_info.go ReadBoxInfo")],
 ["WriteBoxInfo", "ReadBoxInfo"],
 ("abstract interpretation over an unknown stream with tracked bytes and positions; bytes, fields and acceptance compared as decision diagrams",
  "Exact for all values; the acceptance condition is compared exactly at five positions (0 to 2^63-17), fields and positions for an unknown position."))

prop("W03", "Copying a box transfers exactly its bytes",
 "CopyBox copies exactly Size bytes, from the box's Offset in the reader (wherever the reader was) to the writer's current position, once, for every box, header form and nesting, and writes nothing else.",
 ["inputs"], "every offset, size, header form and position of reader and writer",
 "Tests copy a box of a few bytes; large sizes and boxes with other header forms are not sampled.",
 ["write.go"],
 [("seek and copy", "write.go CopyBox")],
 ["Writer.CopyBox"],
 ("abstract interpretation with ghost positions of reader and writer",
  "The transfer itself (io.CopyN) is trusted to copy what it is asked for; short copies are E02's part."))

prop("R03", "Marshal writes the enabled fields in order, big-endian, at exact widths",
 "For every registered structure (any mix of integers, booleans, strings, arrays, slices, nested structures, pointers and embedded FullBox described by mp4 tags) and all field values, Marshal writes exactly the fields enabled by version, flags and dynamic options, in tag order, each big-endian in exactly its declared number of bits (two's complement for signed, four 7-bit groups for varint, strings followed by one NUL unless boxstring), consecutively and without gaps at any bit alignment, and returns the number of bytes written. Values written by a structure's own OnWriteField are counted and replace the field when it says so.",
 ["inputs"], "all field values; every tag combination, width 1 to 64, bit alignment 0 to 7, and the element counts and nesting shown in the evidence",
 "Tests marshal a few values of each shipped box; a defect in one width at one alignment, or one sign or byte position, is outside every sample.",
 ["marshaller.go", "field.go", "internal/bitio/write.go"],
 [("field loop and bit arithmetic", "marshaller.go marshalStruct/marshalInt/marshalUint/marshalString/marshalSlice"), ("field gating", "field.go isTargetField"), ("bit writer", "internal/bitio/write.go")],
 ["Marshal"],
 ("abstract interpretation of Marshal with a bit-vector domain over decision diagrams, all field values unknown, partitioned on the shape of witness structures",
  "Values are unknown, so each shape is decided for all values. Shapes are enumerated: widths 1 to 64, alignments 0 to 7, up to 3 (9, 300 for some) elements, strings up to 40 bytes; longer ones run through the same loops. Values that do not fit their declared width are outside the property."))

prop("R04", "Unmarshal is the mirror image of the wire format",
 "For every registered structure and every input, Unmarshal assigns each enabled field exactly the bits that Marshal's rules put there (sign-extended, NUL-terminated strings ended by the payload at the latest, slices of the given length or up to the payload's end), leaves disabled fields alone, returns the number of payload bytes used and leaves the reader exactly behind them. What a structure's own OnReadField reads is counted and replaces the field when it says so.",
 ["inputs"], "all payload bytes; every tag combination, width, alignment and payload size shown in the evidence",
 "Tests decode a few byte strings per box; payload bytes, alignments and lengths cannot be sampled densely enough to expose a wrong bit.",
 ["marshaller.go", "field.go", "internal/bitio/read.go"],
 [("field loop and bit arithmetic", "marshaller.go unmarshalStruct/unmarshalInt/unmarshalUint/unmarshalString/unmarshalSlice"), ("bit reader", "internal/bitio/read.go")],
 ["Unmarshal", "UnmarshalAny"],
 ("abstract interpretation of Unmarshal with a bit-vector domain over decision diagrams, all input bits unknown, partitioned on the shape of witness structures",
  "Input bits are unknown, so each shape is decided for all inputs. Shapes are enumerated as for R03, with payloads up to 48 bytes behind unknown leading bytes; varints longer than four octets are outside."))

prop("R05", "Every registered box codes its real structure as the standard lays it out",
 "For each registered box type, version and flag combination, with unknown field values, Marshal of the shipped Go structure writes and Unmarshal reads exactly the byte sequence the box's layout prescribes: registration, tags, GetFieldSize, GetFieldLength, IsOptFieldEnabled and the OnReadField/OnWriteField hooks together yield the layout end to end, and decoding returns the values encoded.",
 ["inputs"], "all field values of every registered box for the versions, flags, contexts and element counts enumerated",
 "Each box has one or two test vectors, mostly with version 0 and few flags; conditional fields interact through hooks that only show for particular combinations.",
 ["box_types_iso14496_12.go", "box_types_iso14496_14.go", "box_types_metadata.go", "box_types_vp.go", "box_types_av1.go", "box_types_opus.go", "marshaller.go"],
 [("structures and their tags", "box_types_*.go"), ("dynamic sizes, lengths, options and hooks", "GetFieldSize/GetFieldLength/IsOptFieldEnabled/OnReadField/OnWriteField methods"), ("registration", "AddBoxDef calls")],
 ["Marshal", "Unmarshal"],
 ("abstract interpretation of Marshal and Unmarshal on the shipped structures against an independently written layout table, bits compared as decision diagrams",
  "Values unknown; versions, flag bits and contexts are covered pairwise in the quick tier and fully in the thorough tier, slices with up to 3 elements. The two known deviations of hvcC (see R01) are laid out as the code has them. The codes of hdlr, meta, items and emsg version 1 that depend on the data are decided by R10."))

prop("R06", "Marshal and Unmarshal refuse what cannot be coded",
 "Unmarshal fails for every payload too short for its fields and every input ending early, for numbers of bits that are not whole bytes, for elements crossing the payload, size 0 and signed varints; an unsupported version gives exactly ErrUnsupportedBoxVersion with the reader back at the payload's start, an unregistered type ErrBoxInfoNotFound. Marshal fails for slices shorter than their declared length, for bits that are not whole bytes, and for signed varints. Errors of a structure's own methods are passed on, and what BeforeUnmarshal consumed is counted or, if it says so, replaces decoding.",
 ["inputs", "faults"], "all payload and input lengths, versions and field values of the structures shown in the evidence",
 "Tests contain a handful of broken payloads; which truncation point or version is accepted by mistake is not visible in samples.",
 ["marshaller.go", "mp4.go", "internal/bitio/read.go"],
 [("overrun and alignment checks", "marshaller.go Unmarshal/unmarshalSlice/unmarshalStructInternal"), ("version check", "marshaller.go unmarshalStruct, mp4.go IsSupportedVersion")],
 ["Marshal", "Unmarshal", "UnmarshalAny"],
 ("abstract interpretation of Marshal and Unmarshal on refused shapes with unknown values; the error condition compared as a decision diagram",
  "Decided for all values on enumerated shapes: every payload and input length from 0 to the shape's length and widths, alignments and kinds as in R03. Values out of a field's range are not refused by design and outside."))

prop("R10", "Boxes whose layout depends on their data follow the rules of their formats",
 "A meta box is read as a FullBox exactly if its first four bytes are zero, and otherwise as a QuickTime atom whose children start at once; a handler name is a counted string exactly if pre-defined is set and its first byte is the number of bytes left, and otherwise ends at the first NUL or the box's end. Writing avcC fails exactly if the high-profile fields are enabled for a profile other than 100, 110, 122 and 144; emsg version 1 splits into its two strings and the message, and fails if a string is not terminated inside the box; an ilst item named by number is an item exactly if the number lies within the preceding keys, and otherwise an unknown type. New returns the structure registered for a type, carrying that type.",
 ["inputs"], "all bytes the decision depends on, for the payload lengths enumerated",
 "The conditions depend on input bytes and lengths; tests try one value on each side of some of them.",
 ["box_types_iso14496_12.go", "box_types_metadata.go", "box_types_iso14496_14.go", "mp4.go"],
 [("meta", "box_types_iso14496_12.go Meta.BeforeUnmarshal"), ("hdlr", "Hdlr.OnReadField"), ("avcC", "AVCDecoderConfiguration.OnReadField/OnWriteField"), ("emsg", "Emsg.OnReadField"), ("items", "box_types_metadata.go")],
 ["Unmarshal", "Marshal", "BoxType.New"],
 ("abstract interpretation of Unmarshal on the shipped structures with unknown input bytes; conditions and values compared as decision diagrams",
  "All byte values; lengths enumerated (names up to 8 and 254 to 257 bytes, emsg strings at every terminator position up to 6 bytes, avcC with 0 to 8 bytes left)."))

prop("R02", "Versioned and fixed-point accessors return the value the box carries",
 "Each Get accessor of a decoded structure returns, for every field value and index, exactly the value the box carries: the field of the structure's version for times, durations, offsets and shifts (sign included, zero for versions that have neither field), and for fixed-point fields value/2^n as a float and its integer part (rounded towards minus infinity) as an integer.",
 ["inputs"], "all versions, field values and indices",
 "Tests call each accessor with one value per version; a truncated conversion, a lost sign or the wrong version's field only shows for large or negative values.",
 ["box_types_iso14496_12.go"],
 [("versioned accessors", "box_types_iso14496_12.go Get* methods of Cslg, Ctts, Elst, Mdhd, Mehd, Mvhd, Saio, Sidx, Tfdt, Tfra, Tkhd, Trun"), ("fixed-point accessors", "Mvhd.GetRate, Smhd.GetBalance, Tkhd.GetWidth, AudioSampleEntry.GetSampleRate, ...")],
 ["Get* accessors"],
 ("abstract interpretation of the accessors with unknown fields; results compared as decision diagrams with the field the table names",
  "Exact for all values, one accessor at a time, three elements for indexed ones. Floats are compared through the integer and the divisor they are made from."))

prop("R08", "Version, flags, type and brand setters change exactly what they name",
 "For every registered structure: GetVersion/SetVersion, GetFlags/SetFlags and AddFlag/RemoveFlag/CheckFlag behave as a register of 8 and 24 bits (a value set is read back, adding or removing flags changes exactly the bits given, CheckFlag is true exactly if one of the bits is set), structures without a FullBox header report version 0, flags 0 and every CheckFlag as true, and structures shared by several codes report the type last given to SetType. AddCompatibleBrand adds a brand unless present, RemoveCompatibleBrand removes it wherever it is listed, HasCompatibleBrand tells whether it is, and the list otherwise keeps its brands.",
 ["inputs", "histories"], "all values of the registers, the types and the brands; every registered structure",
 "Tests set one or two values; a bit lost by a mask or a brand removed at the wrong place needs particular values.",
 ["mp4.go", "box.go", "anytype.go", "box_types_iso14496_12.go"],
 [("FullBox register", "box.go FullBox methods"), ("types", "anytype.go AnyTypeBox"), ("brands", "box_types_iso14496_12.go Ftyp methods")],
 ["IBox.GetVersion/SetVersion/GetFlags/CheckFlag/SetFlags/AddFlag/RemoveFlag", "AnyTypeBox.SetType/GetType", "Ftyp.AddCompatibleBrand/RemoveCompatibleBrand/HasCompatibleBrand"],
 ("abstract interpretation of the methods with unknown receiver and arguments; state and results compared as decision diagrams",
  "Exact for all values; brand lists with up to four entries, removal from up to three."))

prop("C01", "Only registrations change state shared between users of the library",
 "Apart from AddBoxDef and its variants, no exported operation changes state that outlives the call other than through its own arguments and results: decoding, encoding, traversing, printing, probing and looking up types behave the same whatever was processed before, and different goroutines may use them at the same time on readers, writers and structures of their own.",
 ["histories", "schedules"], "every sequence and every concurrent interleaving of calls",
 "Tests run one operation after another on fresh values; state left behind or shared only shows for particular sequences or interleavings.",
 ["mp4.go", "field.go", "marshaller.go", "read.go", "string.go", "probe.go", "internal/bitio/read.go", "internal/bitio/write.go", "internal/util/io.go", "internal/util/string.go"],
 [("table of box types written by registrations only", "mp4.go AddBoxDef/AddBoxDefEx/AddAnyTypeBoxDef/AddAnyTypeBoxDefEx"), ("field descriptions copied before they are resolved", "field.go resolveFieldInstance"), ("buffers allocated per call", "internal/bitio/read.go ReadBits/ReadBit")],
 ["every exported function and method"],
 ("effect analysis: origin of every pointer written through, followed through calls, closures, interfaces, reflection and memory kinds",
  "Every store, map update, append, copy, reflective or library write in the ~1600 functions reachable from the exported API must not go to memory reached through a package-level variable. Types of package sync are taken to be made for sharing."))

prop("C02", "Operations that only need to look at their arguments leave them unchanged",
 "Marshal, Stringify, the Get, Has, Is and Check methods of all structures, WriteBoxInfo, StartBox, CopyBox, the SeekTo methods, path comparison, FindIDRFrames, bitrate methods and every other exported operation leave the structures, slices and byte contents given to them as they are, receiver included. Exempt are setters (Set, Add, Remove), the structure being decoded into, the Writer's own state, streams, and the BoxInfo of an ftyp or keys box a traversal starts from.",
 ["inputs", "histories"], "every structure of every type passed to every operation",
 "Tests compare what an operation returns, not what it did to its arguments, and most use each structure once.",
 ["marshaller.go", "string.go", "box_info.go", "write.go", "read.go", "extract.go", "probe.go", "mp4.go"] + STD,
 [("encoding and printing read through reflection only", "marshaller.go marshal*, string.go stringify*"), ("hooks and accessors of the structures", "box_types_*.go"), ("headers copied before they are completed", "box_info.go WriteBoxInfo")],
 ["every exported function and method"],
 ("effect analysis: origin of every pointer written through, with the arguments of each operation as origins",
  "For ~200 operations every write in the functions they reach must not go to memory reached from an argument; structures of the caller's own types are outside."))

prop("C03", "What a handler or caller is given stays valid and is never reused",
 "Each handle, its path and each decoded structure is made for that visit or call alone: later visits and later decoding never change it, it shares no memory with those given out before or after nor with the library's own state, so handlers may keep them, extend the path or modify the structure without affecting the rest of the traversal.",
 ["histories"], "every traversal and every handler that keeps or changes what it was given",
 "Tests look at paths and boxes during the visit; reuse of the memory only shows when they are kept or changed, at particular depths or capacities.",
 ["read.go", "mp4.go", "marshaller.go", "internal/bitio/read.go"],
 [("handle and path made per visit", "read.go readBoxStructureFromInternal"), ("structure made per decoding", "mp4.go New"), ("buffers of decoded fields", "marshaller.go unmarshalSlice")],
 ["ReadHandle", "ReadHandle.Path", "ReadHandle.ReadPayload", "UnmarshalAny"],
 ("must-fresh analysis over SSA of what is handed out, no-write-after-publication check on the control flow graph, and effect analysis of decoding",
  "All handler calls, all stores to handles and paths and all writes to the decoded structure in the functions a traversal reaches. What the handler itself keeps of a reader's buffers is outside."))

prop("P01", "Probe reports what the boxes of a progressive file say",
 "For every file with the boxes Probe needs, the result lists brands, time scales, durations, fast start (moov before the first mdat) and, per trak in file order: identifier, edit list, codec, encryption, AVC configuration and size, AAC object types and channels as the boxes give them (also below encv/enca and wave), one sample per stts count with its duration, ctts offset (sign by version) and stsz size (constant or listed), and one chunk per stco/co64 entry with the number of samples stsc assigns to it. A file lacking a mandatory box, with tables that contradict each other's counts, or whose reading fails is refused.",
 ["inputs"], "all values of the fields Probe reads, for the file structures and table lengths enumerated",
 "Tests probe a few sample files; versions, 64-bit tables, unusual table lengths, constant sizes and values beyond 32 bits are not among them.",
 ["probe.go"],
 [("file level", "probe.go Probe"), ("tracks", "probe.go probeTrak"), ("AAC object type", "probe.go detectAACProfile/findExtAACProfile")],
 ["Probe", "ProbeFra"],
 ("abstract interpretation of Probe over a virtual box tree with unknown field values; the reported structure compared as decision diagrams with the one the tables define",
  "Exact for all field values, ~160 file shapes: table lengths up to three entries, run lengths up to three, present and absent boxes, both versions. Extraction and decoding are taken by their contracts (T04, R04)."))

prop("P02", "Probe reports what the boxes of each movie fragment say",
 "For every moof in file order the result lists one segment with the fragment's offset, track, default sample duration, decode time (by tfdt version), number of samples, total duration and total size (listed values where the trun flags say so, the tfhd defaults otherwise), and the smallest composition offset of a sample relative to the fragment's start (sign by trun version).",
 ["inputs"], "all values and flags of tfhd, tfdt and trun, for runs of the lengths enumerated",
 "Tests probe one fragmented file; flag combinations, version 1 and negative offsets are not among them.",
 ["probe.go"],
 [("fragments", "probe.go probeMoof")],
 ["Probe", "ProbeFra"],
 ("abstract interpretation of Probe over a virtual box tree with unknown field values; segments compared as decision diagrams",
  "Exact for all field values and flags, runs of up to three samples. Several trafs or truns per moof are outside (the last one counts)."))

prop("P03", "FindIDRFrames returns exactly the samples that hold an IDR picture",
 "For an AVC track the result lists, in order and once each, exactly the samples in which walking the NAL units by their lengths (of the configured width, big-endian) from the sample's place in its chunk reaches a unit of type 5; samples are assigned to chunks in order and lie back to back from the chunk's offset. Without an AVC configuration nothing is listed; if sample data cannot be read it fails.",
 ["inputs"], "all sample bytes, for the sample sizes, chunk layouts and length widths enumerated",
 "Whether a unit is reached depends on every length before it; tests use one file with regular samples.",
 ["probe.go"],
 [("NAL walk", "probe.go FindIDRFrames")],
 ["FindIDRFrames"],
 ("abstract interpretation of FindIDRFrames over a stream of unknown bytes; the reported indices compared as decision diagrams with the NAL walk",
  "Exact for all bytes; samples up to 12 bytes, lengths of one to four bytes, up to four samples in up to three chunks, chunk offsets below and above 4 GiB."))

prop("P04", "Bitrates are eight times the bytes, times the time scale, by the duration",
 "Samples.GetBitrate and Segments.GetBitrate return, in 64-bit arithmetic and rounded down, 8 times the total size times the time scale divided by the total duration, for segments counting those of the given track only; Segments.GetMaxBitrate returns the largest bitrate of a single segment of the track; Samples.GetMaxBitrate returns, for samples of equal duration, the largest bitrate of any run of just as many consecutive samples as the period takes (all of them if there are fewer). Where there is no duration the result is zero, never a failure.",
 ["inputs"], "all sizes, durations, track numbers and time scales, for the list lengths enumerated",
 "Tests use a handful of small values; sums beyond 32 bits, zero durations and windows at the ends of the list are not among them.",
 ["probe.go"],
 [("samples", "probe.go Samples.GetBitrate/GetMaxBitrate"), ("segments", "probe.go Segments.GetBitrate/GetMaxBitrate")],
 ["Samples.GetBitrate", "Samples.GetMaxBitrate", "Segments.GetBitrate", "Segments.GetMaxBitrate"],
 ("abstract interpretation with unknown values; products in normal form, quotients as ordered unknowns, results compared as decision diagrams",
  "Exact for all values up to four elements; for Samples.GetMaxBitrate sixteen pairs of duration and period. Products beyond 64 bits wrap in the specification too."))


prop("B01", "No payload makes decoding a box panic, loop or allocate beyond its size",
 "Whatever the bytes, the claimed payload size (shorter than, equal to or far beyond what the stream holds, below 2^61) and the context, Unmarshal of every registered box type returns, with a result or an error: it never panics. It allocates memory in proportion to the bytes that are there, not to counts or sizes written in them (samples of a trun box that take no bytes aside).",
 ["inputs"], "all bytes, for payloads of 0 to 16 bytes and around the fixed size of each type",
 "Tests decode well-formed boxes; the hostile ones differ from them in a few bits of a length, a count, a version or a type field.",
 ["marshaller.go", "box_types_iso14496_12.go", "box_types_iso14496_14.go", "internal/bitio/read.go", "internal/util/io.go"],
 [("decoding", "marshaller.go Unmarshal, unmarshalSlice, readerHasSize"), ("hooks of the box types", "box_types_*.go OnReadField, BeforeUnmarshal, GetFieldLength, GetFieldSize")],
 ["Unmarshal", "UnmarshalAny"],
 ("abstract interpretation of Unmarshal on fully unknown payloads: reachability of panicking instructions and the size of every allocation as decision diagrams",
  "Every registered type; all bytes and all contexts for the enumerated lengths, present in full, cut short, or claimed to be 2^40; AVCDecoderConfiguration and Esds beyond 9 bytes with some forms of their first bytes."))

prop("S01", "Printing a box shows every field once, with its own value",
 "Stringify and StringifyWithIndent print, for every registered box and context, each field that the box encodes (constants and hidden fields aside) exactly once, in declaration order, as its name, '=' and its value: the exact number in decimal or hexadecimal as declared, true/false, names for enumerated values, UUIDs, fixed-point numbers with their fraction, texts between quotes with non-graphic runes replaced by dots, lists between brackets with no more elements than the box has. Version and Flags are those of the box. Printing never fails or panics for a box of valid shape.",
 ["inputs"], "all field values, for every registered type, version, optional part and small element counts; with and without indentation",
 "Tests print one hand-filled value per type; the largest values, signs, fractions, empty and overlong lists, and texts that are not ASCII are not among them.",
 ["string.go", "internal/util/string.go", "box_types_iso14496_12.go", "box_types_iso14496_14.go", "box_types_metadata.go", "box_types_iso23001_7.go"],
 [("printing", "string.go stringifier"), ("own texts of fields", "box_types_*.go StringifyField"), ("escaping and fixed-point numbers", "internal/util/string.go")],
 ["Stringify", "StringifyWithIndent"],
 ("abstract interpretation of StringifyWithIndent: the text as a list of bytes and of formatted unknown numbers, compared with the text the specification table gives",
  "Every registration in every shape of R05, with two assignments of signs and truth values; all other bits unknown. Decimal and float formatting itself is that of strconv."))

prop("X01", "mp4tool edits, extracts and lists exactly the boxes of the file",
 "For any file, edit writes every box once, in order and nested as in the input (boxes of unknown types and media data byte for byte, the others re-encoded with only the decode time of tfdt boxes replaced when asked for), leaving out exactly the dropped types, and fails rather than write a decode time that does not fit. Extract writes exactly the bytes of each box of the asked type at any depth. Dump prints one line per box, indented by its depth, with its own type, offset, size and content as the options say; psshdump prints each pssh box of moov and moof with its own fields and bytes.",
 ["inputs", "configurations"], "the files below, whatever their boxes contain; all options of the four commands",
 "The tests run each command on a few sample files: no 64-bit headers or offsets, unknown types with children, unsupported versions, or files where the two versions of tfdt are mixed.",
 ["cmd/mp4tool/internal/edit/edit.go", "cmd/mp4tool/internal/extract/extract.go", "cmd/mp4tool/internal/dump/dump.go", "cmd/mp4tool/internal/psshdump/psshdump.go", "cmd/mp4tool/internal/util/util.go"],
 [("edit", "edit.go editFile"), ("extract", "extract.go extract"), ("dump", "dump.go mp4dump.dump"), ("psshdump", "psshdump.go dump")],
 ["mp4tool alpha edit", "mp4tool extract", "mp4tool dump", "mp4tool psshdump"],
 ("abstract interpretation of the commands over files of known structure and unknown contents: what is done to the output, step by step, compared with what the structure demands",
  "Main of the four commands on three files of 15 to 30 boxes (both header forms, sizes and offsets beyond 2^32, nesting to depth 6, also in their own type, both tfdt versions, unknown types, unsupported versions) under 48 sets of options of edit, 15 types for extract, 14 sets of options of dump, 0 to 7 pssh boxes. Traversal, Writer, Marshal, Stringify and extraction are taken as their own properties state."))
