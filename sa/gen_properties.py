#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
S = "src/DLMS_SPODES/"


def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files],
                     "mechanism": [{"name": n, "where": S + w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if hook:
        d["anchors"]["hook_needed"] = hook
    P.append(d)


CDT = "types/common_data_types.py"
UT = "types/useful_types.py"
CST = "types/cosem_service_types.py"
FR = "hdlc/frame.py"
NEG = "hdlc/negotiation.py"
CIC = "cosem_interface_classes/"

p("C01", "Every common data type carries its standard wire tag",
  "Every common data type encodes with the tag byte the DLMS/COSEM standard assigns to it, no two base types share a tag, and looking a type up by the first byte of an encoding yields the type that produced it. "
  "The encoding of a value is exactly its tag, its length prefix when the type is of variable length, and its contents.",
  ["inputs"], "for every base data type and every tag byte 0..255",
  "Unit tests sample four or five types; a wrong tag on a type the tests never encode, or a registry that resolves one tag to another type, is invisible to them.",
  [CDT], [("type registry and TAG class attributes", CDT), ("encoding property", CDT)],
  ["bytes returned by .encoding", "class returned for a leading tag byte"])

p("C02", "Decoders reject foreign tags and truncation and return the exact rest",
  "Decoding a data value from bytes succeeds only if the leading tag belongs to the requested type and the whole value is present; otherwise it is refused with an error instead of giving a value. "
  "A decoder that also returns the unread remainder returns exactly the bytes that follow the value.",
  ["inputs"], "for every simple and variable-length data type and every input byte string",
  "The input space is all byte strings; tests feed a few well-formed encodings.",
  [CDT, CST], [("from_bytes constructors of the simple types", CDT), ("length-and-contents splitter", CDT)],
  ["value constructed from bytes", "remaining bytes"])

p("C03", "Fixed-width integers keep width, sign and range",
  "An integer data type accepts exactly the integers of its declared width and signedness (and of its declared sub-range when it has one), refuses every other integer, and stores an accepted one big-endian in exactly its number of content octets. "
  "Reading the number back gives the integer that was written.",
  ["inputs"], "for every integer type and every integer",
  "Ranges reach 2^64; tests try a couple of small values of one or two widths.",
  [CDT, "types/implementations/integers.py", "types/implementations/long_unsigneds.py", "types/implementations/double_long_usingneds.py"],
  [("Digital number base class", CDT), ("SIGNED / LENGTH class attributes", CDT), ("MIN/MAX/VALUE limits", "types/implementations/long_unsigneds.py")],
  ["int(value)", "value.contents"])

p("C04", "Length prefixes are definite-form BER and decode to the same length",
  "For every length below 2^32 the prefix is a definite form: the length itself in one octet below 128, otherwise 0x80 plus the number of length octets (1, 2 or 4, the smallest of these that holds the length) followed by the length big-endian. "
  "Reading a prefix gives back the encoded length and leaves exactly the bytes after it.",
  ["inputs"], "for every length 0..2^32 and every prefix form",
  "The form changes at 128, 256, 65536; tests check some values of the encoder and never every boundary against the decoder.",
  [CDT, UT], [("encode_length", CDT), ("get_length_and_pdu", CDT), ("copies in the useful types", UT)],
  ["encoded prefix", "decoded length and rest"])

p("C05", "Assignment validates before it commits and notifies in order",
  "Assigning a new value to a data object first builds and validates the whole new value, then runs the pre-assignment callback, then commits, then runs the post-assignment callback. "
  "If validation or the pre-assignment callback fails, the object still encodes to the old value and no post-assignment callback runs. A structure validates its whole new value before any of its elements is assigned; an array may run its pre-assignment callback before its elements are built.",
  ["inputs", "histories"], "for every data object, every assigned value and callbacks that may raise",
  "The order only shows when validation or a callback fails part-way; no test registers a failing callback.",
  [CDT], [("set() of simple, array, structure types", CDT), ("write-once contents", CDT), ("callback registration", CDT)],
  ["encoding before/after a failing assignment", "callback invocation order"])

p("C06", "Byte buffer never reads or writes outside its window and advances exactly",
  "Reading n bytes from the byte buffer returns exactly the n bytes at its cursor and advances the cursor by n; writing n bytes changes exactly those n positions and advances by n. "
  "A request that exceeds the free space, a write whose stated length is not that of its value, or a cursor position outside 0..size, is refused and leaves the buffer unchanged.",
  ["inputs", "histories"], "for every buffer size, cursor position, and read/write length",
  "The boundary depends on three unbounded quantities; tests use one short buffer.",
  ["types/byte_buffer.py"], [("space check", "types/byte_buffer.py"), ("read/write/position", "types/byte_buffer.py")],
  ["returned bytes", "cursor", "buffer contents"])

p("C07", "Buffer-backed PDU elements decode what they encode",
  "Each buffer-backed protocol element (boolean, integer, octet string, null, sequence, choice, optional) writes the standard encoding of its value into the buffer and reading at the same position returns an element with the same value. "
  "The length read equals the length written for every length, and values outside the declared size are refused.",
  ["inputs"], "for every element kind, value and buffer offset",
  "Tests use one short example per kind; long-form lengths and boundaries are never reached.",
  ["types/cosem_pdu.py"], [("buffer with get/put length", "types/cosem_pdu.py"), ("element get/put", "types/cosem_pdu.py")],
  ["bytes in the buffer", "value read back"])

p("C08", "Service types decode field by field and select choices by their tag",
  "A sequence service type decodes each declared field in declared order, each from the bytes the previous one left, and encodes to the concatenation of its fields' encodings; it refuses input too short for a field. "
  "The integer, octet-string, text, boolean, bit-string and optional service types read the contents they write, keep their declared size and refuse values or contents outside it. "
  "A choice picks the alternative whose identifier is the leading byte, encodes that identifier first, and refuses any other leading byte.",
  ["inputs"], "for every declared sequence and choice type and every input",
  "Tests build two or three instances; dispatch over every alternative and every leading byte is not sampled.",
  [UT, "types/choices.py"], [("sequence and choice base classes", UT), ("declared element tables", UT)],
  ["decoded fields", "contents"])

p("C09", "Invoke-id and priority octet keeps each flag in its own bits",
  "In the invoke-id-and-priority octet the invoke id occupies bits 0..3, service class bit 6 and priority bit 7; bits 4 and 5 are reserved and written as zero. "
  "Building the octet from these parts and reading any part back returns the part that was given, for all 256 octets, and parts outside their range are refused.",
  ["inputs"], "for all 256 octets and every combination of invoke id, service class and priority",
  "The tests check one octet; a mask error on one flag shows only with that flag set and its neighbour clear.",
  [UT], [("bit masks of the octet", UT)], ["each part read from an octet", "octet built from parts"])

p("C10", "HDLC check sequence is the standard CRC-16/X-25 for every message",
  "The check sequence computed over any bytes is the 16-bit HDLC FCS (reflected polynomial 0x8408, initial 0xFFFF, complemented) transmitted low octet first. "
  "Hence every single-bit and every burst error of at most 16 bits in a frame changes the check sequence.",
  ["inputs"], "for every byte string",
  "A 256-entry table and arbitrary messages; a corrupted entry shows only for messages that index it. No HDLC test runs today.",
  [FR], [("FCS table and accumulation step", FR)], ["check sequence octets"])

p("C11", "HDLC frame format field keeps type, segmentation bit and length apart",
  "The two-octet frame format field is built as frame type 3, one segmentation bit and an 11-bit length, and reading it back yields the same segmentation bit and length; a field of any other type, or a length that does not fit 11 bits, is refused.",
  ["inputs"], "for every length 0..2047 and above, segmentation flag, and every 16-bit field",
  "Lengths above 255 and the boundary at 2048 are never built by the tests.",
  [FR], [("format field class", FR)], ["field octets", "length and segmentation read back"])

p("C12", "HDLC addresses use the shortest form and decode to the same address",
  "An HDLC address is encoded in one, two or four octets with only the last octet's low bit set, carrying the upper address in the high half and the lower address in the low half with seven bits per octet. "
  "Decoding an address field of a frame gives back the upper and lower addresses (an omitted lower address is a zero one), the encoding length is the number of octets consumed, and out-of-range addresses or malformed address fields are refused.",
  ["inputs"], "for every upper/lower address 0..16383 and every address field",
  "There are 2^28 address pairs and four forms; no test of HDLC runs today.",
  [FR], [("address class", FR)], ["address octets", "upper/lower read back", "octets consumed"])

p("C13", "Every HDLC control octet is classified as the standard frame kind",
  "Each of the supported control octets (information, receive-ready, receive-not-ready, SNRM, DISC, UA, DM, FRMR, UI) is declared with the value ISO/IEC 13239 gives it and is classified as exactly one frame class (information, supervisory, unnumbered), with the supervisory kind, sequence numbers and, for numbered frames, the poll/final bit that its bits carry. Writing the octet and reading it back gives the same control value.",
  ["inputs"], "for every control octet 0..255",
  "256 octets and 9 kinds; no test of HDLC runs today.",
  [FR], [("control table and classifiers", FR)], ["frame kind", "sequence numbers"])

p("C14", "HDLC sequence numbers advance modulo eight",
  "After an information or receive-ready frame the next send and receive counters are the standard successors modulo 8, never leaving 0..7, and the frame built from counters carries exactly those counters in its control octet.",
  ["inputs", "histories"], "for every pair of counters and every frame kind",
  "Wrap-around occurs only after eight exchanges; no test reaches it.",
  [FR], [("sequence arithmetic on the control octet", FR)], ["control octet of the next frame"])

p("C15", "Only frames that are intact and addressed are accepted by the receiver",
  "A received frame is accepted only if its frame format is valid, both check sequences match over the octets they cover and its declared length agrees with the octets received; anything else is refused with an error or reported as incomplete. "
  "Fields of an accepted frame are the octets at their positions in the received bytes.",
  ["inputs", "fault_sequences"], "for every received byte string, including truncation and corruption",
  "All byte strings and all corruptions; no test of HDLC runs today.",
  [FR], [("frame constructor from received octets", FR), ("stream extractor", FR)],
  ["accepted frame", "bytes left in the receive buffer"])

p("C16", "Segmented information fields are rejoined complete and in order",
  "Joining the frames of a segmented information transfer yields the concatenation of their information fields in transmission order, up to and including the first frame without the segmentation bit, and consumes exactly those frames; frames of another kind or out of sequence are not joined.",
  ["histories"], "for every sequence of received information frames",
  "Needs multi-frame sequences; no test of HDLC runs today.",
  [FR], [("information joiner", FR)], ["joined information", "remaining frames"])

p("C17", "HDLC parameter negotiation stays in the standard's ranges and is symmetric",
  "Negotiated maximum information lengths always lie in 32..2030 and window sizes in 1..7; a response with a value out of range or cut short is refused as a whole, and parameters a response does not name get the defaults 128 and 1. "
  "The parameter block that is built assigns each parameter its own identifier and length, and parsing a block assigns each value to the parameter its identifier names.",
  ["inputs"], "for every parameter combination and every received block",
  "No test of HDLC negotiation runs today; parameter orders and boundaries are unbounded input.",
  [NEG, CIC + "iec_hdlc_setup/ver1.py"], [("parameter setters and block builder/parser", NEG)],
  ["negotiated parameters", "parameter block"])

p("C18", "LLC header distinguishes commands from responses",
  "An LLC header carries the destination selector E6, source selector E6 for commands or E7 for responses, and a zero quality octet; parsing recovers the kind and payload and refuses any other header.",
  ["inputs"], "for every three-octet header and payload",
  "No test of the LLC layer runs today.",
  ["hdlc/sub_layer.py"], [("LLC class", "hdlc/sub_layer.py")], ["header octets", "payload"])

p("C19", "Date and time fields sit at their standard offsets with valid ranges",
  "Each date, time and date-time part (year, month, day, weekday, hour, minute, second, hundredths, deviation, clock status) is read from and written to its standard octets, changing one part leaves the others as they were, and a part outside its permitted range or special values is refused. "
  "A value built from a date or time of the standard library, or from its own text form, has the same parts, a written form that leaves parts out leaves them unspecified, text with an impossible part is refused; the deviation is a signed number of minutes, -720..720 or unspecified.",
  ["inputs"], "for every date-time value, part and assigned part value",
  "12-octet values with wildcards; tests read one or two samples.",
  [CDT, CST], [("date, time, date-time accessors and checkers", CDT)], ["each part", "contents after set"])

p("C20", "Logical names convert between six octets and text without loss",
  "A logical name is exactly six octets; text of six dot-separated numbers 0..255 becomes those octets in order and the text form lists the octets in the same order; a text that ends early is completed with 0, group F with 255. "
  "Groups outside 0..255, words, more than six groups and octet strings of another size are refused. Each value group A..F is the octet at its position, and every form of a name gives the same search key.",
  ["inputs"], "for all 2^48 logical names and all strings",
  "2^48 values; tests touch one or two.",
  [CST, UT], [("logical name type", CST), ("object instance id", UT)], ["octets", "text", "groups A..F"])

p("C21", "Version comparison is a total order consistent with equality",
  "Application versions compare by major, then minor, then patch, with equality exactly when all parts are equal; the additional text only counts for equality and as a last tie-break. A version parsed from text M.m or M.m.p prints back to that text, a suffix behind the patch becomes the additional text, and text that is no version gives 0.0. "
  "The nearest version selected for a target is the highest of the given choices that has its major and minor number and does not come after it.",
  ["inputs"], "for all versions and all lists of choices",
  "Totality and consistency are laws over all pairs; tests check one list.",
  ["version.py"], [("comparison dunders and parser", "version.py"), ("nearest selection", "version.py")],
  ["comparison results", "selected version"])

p("C22", "Access-mode tables grant exactly the standard's rights",
  "Each access mode value grants reading, writing and invoking exactly as the standard's access-mode table of its association version says: authenticated modes grant their right only when the security policy (either the authenticated-request or the authenticated-response bit) or the authentication mechanism provides it, an attribute or method without an entry, an object that is not listed and an association without a list grant nothing, and what a collection answers about rights follows the current list of the association of that very collection.",
  ["inputs", "configurations"], "for every access mode value and association version",
  "No test loads the association classes (they do not import today).",
  [CIC + "association_ln/ver0.py", CIC + "association_ln/ver1.py"],
  [("access-right predicates", CIC + "association_ln/ver0.py")], ["is-readable / is-writable answers"])

p("C23", "Attribute and method numbers agree with their declarations and accessors",
  "In every interface class the n-th declared attribute or method is reached by the number the standard gives it, and each named accessor returns the element declared under that number; numbers outside the declared range are refused.",
  ["programs"], "for every interface class, every declared element and every accessor",
  "About 40 classes with hundreds of accessors that no test loads.",
  [CIC + "cosem_interface_class.py", CIC + "clock.py", CIC + "profile_generic/ver1.py", CIC + "association_ln/ver0.py"],
  [("declared element tables and named accessors", CIC + "cosem_interface_class.py")], ["element returned by an accessor"])

p("C24", "Class identifier and version select the class declared with them",
  "Looking up an interface class by class identifier and version yields a class that declares that identifier and version; every class the package supports is found under its own numbers, pairs that are not in the table asked are refused with ValueError, and an object added to a collection has the class identifier and version asked or is refused and not in the collection.",
  ["inputs", "configurations"], "for every class identifier and version in every class map",
  "The maps hold dozens of entries that no test loads.",
  [CIC + "collection.py", CIC + "overview.py"], [("class maps", CIC + "collection.py")], ["class returned"])

p("C25", "OBIS-to-class tables resolve every code to one declared class",
  "Each entry of the object tables expands to exactly the codes its key describes (a key of another shape is refused), a later entry takes over its own codes only, every entry can be reached by the lookup for codes it describes, the lookup takes the finest entry that applies to the logical name (codes in manufacturer specific ranges only by full B C D E entries) and any class of the common map without one, the standard's codes admit exactly the classes the standard gives them, and the table of a collection follows its identity.",
  ["inputs", "configurations"], "for every table entry of every manufacturer table and every logical name",
  "The tables expand to thousands of keys and no test loads them.",
  [CIC + "collection.py"], [("function map tables and lookup", CIC + "collection.py")], ["class map selected for a logical name"])

p("C26", "Grouping a logical name never fails and keeps its medium",
  "Every logical name is put in exactly one relation group without an internal error, the group belongs to the medium named by its A value group, codes the standard lists are in the group of their section, and a tree of objects holds every object exactly once, under its own medium, group or class.",
  ["inputs"], "for every logical name",
  "2^48 names; no test loads the grouping code.",
  [CIC + "collection.py", "obis/media_id.py"], [("relation group selection", CIC + "collection.py")], ["group returned"])

p("C27", "Saved XML collections are read back by the reader of the same version",
  "What a collection writes to a file - all values of a device, the values that differ from its type, the type itself, a template plain or decoded, a template of several collections - the reader of that kind of file reads back: identity, server versions, objects, used attributes, the verified mark and every value written are the ones saved, and attributes that were not written get no value; a file of another kind or of another device is refused.",
  ["configurations", "histories"], "for each writer/reader pair of each format version, for every value saved",
  "No test saves a collection.",
  [CIC + "collection.py"], [("XML writers and readers", CIC + "collection.py")], ["XML element and attribute names"])

p("C28", "Identity of a device collection is set once",
  "Once the manufacturer, country, country version, DLMS version or server type of a collection is set, whatever the value, a later different assignment is refused with ValueError and the first value stays, except through the explicit force path; the version of a collection file is set once; a server version of an instance admits only the same major and minor number with an equal or earlier patch; and no collection shares its identity with another.",
  ["histories"], "for every order of identity assignments",
  "Needs histories of assignments; no test loads collections.",
  [CIC + "collection.py"], [("identity setters", CIC + "collection.py")], ["identity after repeated assignment"])

p("C29", "Bit-string values keep bit order and declared size",
  "A bit string stores bit 0 in the most significant bit of its first octet, pads the last octet, and encodes its bit count as length; reading, setting or clearing bit i affects exactly bit i, and fixed-size bit strings refuse other sizes.",
  ["inputs"], "for every bit string, index and construction form",
  "Positions and sizes vary; tests do not touch bit strings.",
  [CDT, "types/implementations/bitstrings.py"], [("bit string type", CDT), ("conformance block", "types/implementations/bitstrings.py")],
  ["bits", "contents"])

p("C30", "Names a module uses exist where it looks for them",
  "Every name a module imports from another module of the package, and every global or module attribute its code refers to, is defined there, so that no code path ends in a name or attribute lookup failure.",
  ["programs"], "for every module and every reference in it",
  "Only the imported modules are exercised, and only on the lines the tests run.",
  ["__init__.py", "client.py", CIC + "collection.py", UT], [("module namespaces", "__init__.py")], ["name resolution"])

p("C31", "Firmware is delivered only after its digest matches",
  "Firmware images are handed out only when, for every item of the file, the digest stored with it equals the SHA-256 of the delivered bytes; a mismatch or a file of another kind is refused with ValueError and an unknown manufacturer gives nothing. "
  "The file and key of the manufacturer's own entry are used, the key in the codec it names, and decrypting what was encrypted gives back the data.",
  ["inputs", "fault_sequences"], "for every firmware file content and identifier",
  "Corrupted files are never produced by the tests.",
  ["firmwares.py"], [("digest verification", "firmwares.py")], ["image returned or error"])

p("C32", "Firmware image blocks cover the image exactly once and in order",
  "Splitting an image into blocks yields consecutive blocks of the negotiated size, the last possibly shorter, that concatenate to the image; the block selected for transfer always carries the octets of its number; stepping through the blocks visits every one in order and stops after the last, resuming the same image skips none and another image starts at block 0; block numbers outside the image are refused and leave the selection.",
  ["inputs", "histories"], "for every image, block size and sequence of selections",
  "No test loads the image transfer class.",
  [CIC + "image_transfer/ver0.py"], [("block splitting and selection", CIC + "image_transfer/ver0.py")], ["blocks sent"])

p("C33", "Calendar, special-day and schedule tables reject inconsistent entries",
  "Season, week, day, special-day and schedule tables refuse an added or replaced entry whose identifier another entry holds and keep their entries; a special day's index cannot be changed to one held; schedule indexes are 1..9999; a new entry proposed by a table has a vacant identifier; and an activity calendar (active or passive) with entries of one identifier, a weekday (Monday to Sunday) that refers to a missing day or a season that refers to a missing week is reported as invalid, naming the attribute, while a consistent one is valid.",
  ["inputs", "histories"], "for every sequence of table edits",
  "Requires edit histories of classes no test loads.",
  [CIC + "activity_calendar.py", CIC + "special_days_table.py", CIC + "schedule.py"],
  [("uniqueness and reference validation", CIC + "activity_calendar.py")], ["table after edits", "validation error"])

p("C34", "Enumerated value tables agree with the standard and with each other",
  "Every enumerated value table maps each number to the meaning the standard gives it: baud-rate codes, class identifiers, data-access results, service and error codes; sibling tables that describe the same enumeration agree, and no two members of one enumeration share a number.",
  ["configurations"], "for every enumeration table and every member",
  "Several hundred constants; tests read a handful.",
  ["enums.py", "pdu_enums.py", "types/implementations/enums.py", "types/cosemClassID.py", "types/implementations/long_unsigneds.py", CIC + "overview.py"],
  [("enumeration classes", "enums.py")], ["member values"])

p("C35", "Structures and arrays keep their declared shape",
  "A structure has exactly its declared elements in declared order and types, and encodes as tag, element count and its elements' encodings; an array holds only elements of its declared type and encodes its element count. "
  "Decoding input of another element count or element type is refused.",
  ["inputs"], "for every declared structure and array and every input",
  "Tests touch one structure; every declared structure must satisfy it.",
  [CDT, "types/implementations/structs.py"], [("structure and array base classes", CDT)], ["encoding", "elements"])

p("C36", "OBIS media identifiers partition the A group",
  "Every A value group 0..15 maps to the medium the standard assigns, an A value without a medium is reserved; distinct media are never equal, equal media hash alike, and every relation group belongs to one medium and is told apart by its hash.",
  ["inputs"], "for every A value group value",
  "Only the media used by the tests are reached.",
  ["obis/media_id.py"], [("media identifier classes", "obis/media_id.py")], ["medium for an A group"])

p("C37", "Data values compare and hash by their encoding",
  "Two data values are equal exactly when their encodings are equal, a copy of a value is equal to it but independent of it, and values never change their wire tag.",
  ["inputs", "histories"], "for every pair of data values",
  "A law over all pairs.",
  [CDT], [("equality, hashing and copying", CDT)], ["equality result", "encoding of the original after editing a copy"])

p("C38", "Floating-point numbers are the IEEE-754 numbers of their value",
  "A Float32 or Float64 made from a number, from its decimal or hexadecimal text or from a number of the other width holds the nearest IEEE-754 single or double of it (ties to even), most significant octet first, behind its tag, and reads back as that number; any octets of an encoding are kept, read as the IEEE-754 number they are, octets after them aside, and too few octets or another tag are refused; numbers and texts beyond the width are refused, text that is not a number with ValueError, and change nothing; text being typed is taken exactly when a number can be made of it, an unfinished one completed by a zero, and does not change the value.",
  ["inputs"], "for every number, text and encoding",
  "Numerical result over all inputs; no test makes a floating-point value.",
  [CDT], [("from_float, from_str, decode, validate_from of Float", CDT)], ["contents", "decoded number", "exception", "typed text"])

p("C39", "Concurrent use of one collection yields some serial result",
  "Threads that read and edit the same collection observe the result of some serial order of their operations.",
  ["schedules"], "for every interleaving of operations on one collection",
  "Interleavings are not exercised at all.",
  [CIC + "collection.py"], [("object container", CIC + "collection.py")], ["collection contents"])

p("C40", "A collection answers from the objects added and not removed",
  "After any history of additions and removals, every query of a device collection (length, iteration, membership, object by any kind of name, objects and version of a class, descriptions, phases) answers from exactly the objects added and not removed, in the order they were added; the logical device name is never removed; an addition that is refused changes nothing; a copy of attribute values from another collection reports complete exactly when every object was taken over; and no collection sees the objects of another.",
  ["histories", "inputs"], "for every history of additions and removals",
  "Needs histories over mutable collections; no test loads them.",
  [CIC + "collection.py"], [("collection container and queries", CIC + "collection.py")], ["answers of the queries"])

p("C41", "Filters, orders and attribute trees show exactly the matching objects",
  "A logical-name pattern is equal to exactly the names it describes; filtering keeps, in their order, exactly the objects that match a wanted class, a wanted medium, a wanted group and a wanted pattern, where a kind of key that is absent admits all; sorting yields every object once, ordered by the keys of its mode from the first to the last and else as given; and the attribute tree of an association shows exactly the attributes of its objects its access modes admit, with no empty branch.",
  ["inputs", "configurations"], "for every list of objects, pattern, key set, mode and access right",
  "Combinations of keys, modes and rights; no test loads this code.",
  [CIC + "collection.py"], [("filter, sort and tree functions", CIC + "collection.py")], ["objects shown"])

p("C42", "Named accessors give the object of the standard's logical name",
  "Every named accessor of a collection of objects gives the object registered under the logical name the standard assigns to what the accessor is named after (with the channel or instance number asked for, 0..255), and reports NoObject when the collection has none; an association is found by the client address of its partners, never the current association itself, else ValueError; lists of objects and of writable attributes keep the order of the association's object list and hold exactly its entries; a descriptor leads to the attribute it describes; the boot version is the first four characters of the firmware description, 'unknown' without one.",
  ["inputs", "configurations"], "for every content of the collection, channel number and client address",
  "Which object is returned depends on logical-name octets no test compares; absent and neighbouring objects are never sampled.",
  [CIC + "collection.py"], [("Collection named properties, get_association_id, get_objects_list, get_writable_attr", CIC + "collection.py")], ["object returned", "exception"])
p("C43", "Profile entries have the columns of the captured attributes",
  "When the capture objects of a profile are set, each entry of its buffer is a structure with one column for each captured attribute, in order, of the attribute's type (or, with a data index, the type of that element), named after it; entries with another count of columns are refused and the buffer is kept; a data index outside of the attribute is refused; captured objects missing in the collection are added with a version known for their class or refused; a sort object that is absent or of another class is refused; the scalers and units reported are those of the captured objects, column by column.",
  ["inputs", "histories", "configurations"], "for every list of capture objects, data index and buffer contents",
  "Types are made at run time from the collection's contents; no test loads a buffer.",
  [CIC + "profile_generic/ver1.py", CIC + "collection.py", CIC + "implementations/structs.py"],
  [("ProfileGeneric.__create_buffer_struct_type, get_scaler_units_profile", CIC + "profile_generic/ver1.py"), ("Collection.get_name_and_type", CIC + "collection.py")], ["buffer type", "exception"])
p("C44", "Link setup, port and status codes keep the standard's layout and ranges",
  "The HDLC setup object has the defaults and ranges of the standard; the parameters of a negotiation response are each taken over into their own attribute, absent ones are the defaults, and a response of another format, with an unknown parameter, or with one that is out of range or cut short, is refused with nothing taken over; channel and interface of a port parameter are changed independently of each other; baud rates, IP addresses, clock status flags, seal states, signal strengths and disconnect control modes are told apart as the standard codes them; values outside of a closed list are refused.",
  ["inputs"], "for every code, octet and parameter list",
  "Bit layouts and tables over whole octets; no test reads them.",
  [CIC + "iec_hdlc_setup/ver1.py", CIC + "implementations/data.py", CIC + "clock.py", CIC + "disconnect_control.py", CIC + "gsm_diagnostic/ver0.py", "types/implementations/double_long_usingneds.py"],
  [("IECHDLCSetup.set_from_info", CIC + "iec_hdlc_setup/ver1.py"), ("ChannelNumberValue, SealUnsigned, SPODES3MeasurementPeriodValue", CIC + "implementations/data.py"), ("ClockStatus", CIC + "clock.py")], ["values", "texts", "exception"])

p("C45", "Thresholds, averages and permissions follow what they depend on",
  "An attribute that depends on another attribute or object takes its type, scaler and unit from it, in whatever order they are read: values of registers and demand registers report with the scaler and unit that are set last; both averages of a demand register are of one type (another type is refused, nothing is kept); the thresholds of a limiter and of a register monitor are of the type of the value they monitor and refuse another type, keeping what they had; a limiter without a monitored object or value reports NoObject or EmptyObj and makes no threshold; each row of an arbitrator's permissions has one bit per action, rows of the right length stay as they are.",
  ["inputs", "histories", "configurations"], "for every value, scaler, class of the monitored object and order of reading",
  "Types are made at run time from other attributes; no test reads attributes in more than one order.",
  [CIC + "register.py", CIC + "demand_register/ver0.py", CIC + "limiter.py", CIC + "register_monitor.py", CIC + "arbitrator.py"],
  [("Register, DemandRegister", CIC + "register.py"), ("Limiter", CIC + "limiter.py"), ("RegisterMonitor", CIC + "register_monitor.py"), ("Arbitrator", CIC + "arbitrator.py")], ["attribute types", "scaler and unit", "exception"])
p("C46", "The calendar in force follows from season, week, day and action",
  "What an activity calendar puts in force at a moment follows from its active tables only: the season is the one that began last at or before the moment, its week is the one it names, the day is the one that week gives for the weekday unless the special-days table has an entry for the date, the action is the one that started last at or before the time of day, and the rate is the selector of its script; where a table has no such row AttributeError is raised; the last moment not after a given one that a date and time admits, each part of it being given or not specified, is found exactly; a special day applies exactly on the dates its specified parts admit.",
  ["inputs", "configurations"], "for every date and time, and every content of the tables",
  "Needs combinations of date wildcards and table contents; no test loads the calendar.",
  [CIC + "activity_calendar.py", CIC + "special_days_table.py", "types/common_data_types.py"],
  [("ActivityCalendar, SpecialDaysTable", CIC + "activity_calendar.py"), ("DateTime, Time nearest moment", "types/common_data_types.py")], ["schedule in force", "exception"])

p("C47", "Events and objects are reported with the text of their code and value",
  "The text of an event value is the one its own group of events has for its code, a code that is not listed is told as an error with its number; a word of flags is told as the texts of all its set bits in their order, bits without text by their number; the report of an object shows the attributes asked for that have a value, in order, and for a structured attribute every element down to the last one, empty ones included, under its name; every text the package takes from a table of texts is in the table of every language.",
  ["inputs", "configurations"], "for every code, word of flags, set of attributes and nested value",
  "Tables of over 300 texts and nested values with empty elements; no test reads a text.",
  [CIC + "events.py", CIC + "reports.py", CIC + "implementations/data.py", "Values/EN", "Values/RU", "relation_to_OBIS.py"],
  [("Events, FlagEvents", CIC + "events.py"), ("get_obj_report", CIC + "reports.py"), ("event values", CIC + "implementations/data.py")], ["texts", "reports"])

p("C48", "A value reads back from its own text",
  "The text a value of a simple type shows makes the same value again, whether it is given to the constructor or to the setter: integers of every width, truth values and the states shown in their place, octet, visible and Unicode strings, bit strings and every listed value of every enumeration (numbers in digits are read too; values whose text says reserved, and kinds whose text is a description such as status words and event lists, excepted); any octets of a visible string or octet string can be shown, one character each, printable ones as they are and a question mark for the others; text that is not of the kind is refused with ValueError by integers, truth values and octet strings. Text being typed for an integer, truth value, bit string or string is taken exactly when a value can be made of it, and given back as typed with the cursor where it was; typed octets are given back as they are shown, the cursor moved with them, an unfinished octet as typed; the value itself does not change.",
  ["inputs"], "for every type and every value of it",
  "Over sixty types with thousands of listed values and texts; templates are saved as text; tests print a few.",
  ["types/common_data_types.py", "types/implementations", CIC + "disconnect_control.py"],
  [("from_str, __str__, to_str, validate_from of simple types", "types/common_data_types.py"), ("Enum texts", "types/common_data_types.py"), ("OutputState", CIC + "disconnect_control.py")], ["text", "value made from it", "exception"])
p("C49", "An association keeps its secret by its mechanism and gives its objects",
  "An association keeps no secret before its mechanism is known, however often one is set; then the secret is of the kind of the mechanism (high: exactly sixteen octets, another length is refused and changes nothing); a hidden secret shows none of its octets and an open one reads back from its text; the client and its address follow from the number of the association or from what was read; the objects of a client are those of the list of its own association, in order, each in the collection with its class and version, the current association aside; descriptors carry class, name and attribute and the selection exactly when it is asked for the list; the name of mechanism n is the object identifier 2.16.756.5.8.2.n.",
  ["inputs", "histories", "configurations"], "for every order of attributes, secret, list and client",
  "Callbacks between attributes depend on the order in which they are read; no test makes an association.",
  [CIC + "association_ln/ver0.py", CIC + "association_ln/mechanism_id.py", CIC + "association_ln/authentication_mechanism_name.py", CIC + "cosem_interface_class.py"],
  [("AssociationLN, LLCSecret, LLCSecretHigh", CIC + "association_ln/ver0.py"), ("set_attr callbacks", CIC + "cosem_interface_class.py")], ["attributes", "texts", "objects", "exception"])

p("C50", "A firmware later than the configured version asks for an update",
  "Whenever the identifier of the active firmware of an instance is read, for the first time or again, and the collection has a server version of that instance, NeedUpdate is raised exactly when the version read is later (by major, minor, then patch, as numbers; no patch precedes any patch); versions of other instances do not matter, text that is no version counts as 0.0.0, the identifier keeps what was read and the versions of the collection stay.",
  ["inputs", "histories"], "for every pair of versions and every order of reading and configuring",
  "A callback on a value decides; no test makes the object.",
  [CIC + "implementations/data.py", "version.py"], [("ActiveFirmwareId", CIC + "implementations/data.py")], ["exception", "identifier", "versions"])

p("C51", "A scaled number is its octets' number times its scale",
  "A number with a scaler and unit of at most fifteen digits keeps the octets and encoding of the number without scale; its text is exactly that number times ten to the scaler (less the scaler of the unit itself), its report adds the unit; reading the text or the decoded number back gives the same octets; what does not fit the octets is refused and changes nothing; the scale is set once (the same again does nothing, another is refused, none resets it); a copy keeps the scale and is a value of its own; equal encodings compare and hash alike; a value encoded for an attribute has the attribute's type and scale and leaves the attribute as it was.",
  ["inputs", "histories"], "for every type, scaler, unit and number",
  "Rounding goes wrong for single numbers and scalers; tests use one or two.",
  [CDT, CIC + "cosem_interface_class.py"], [("Digital", CDT), ("ScalUnitType, Unit", CDT), ("encode", CIC + "cosem_interface_class.py")], ["octets", "texts", "exception"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
