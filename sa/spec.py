"""What each check decides; MANIFEST.json and the evidence wording are generated from this table."""
import importlib

AI = ("abstract interpretation of the source text (ast) with trace partitioning over constants, integer intervals, GF(2)-affine "
      "bit provenance and byte-string segments; every partition of the stated input space must satisfy the obligation")
TRUST = ("The transfer functions of sa/absint.py, sa/exec_model.py and sa/builtins_model.py model CPython 3.12 and the library functions the "
         "package calls; the reference behaviour is written in the rule module.")
LITTLE = "struct's native byte order is little-endian, as on the platforms the package is used on"

SPEC = {}


def prop(pid, mod, technique, explain, note, assume=()):
    SPEC[pid] = {"mod": mod, "technique": technique, "level": "other", "explain": explain, "note": note, "assume": list(assume)}


prop("C10", "rules_hdlc", "abstract interpretation over GF(2)-affine bits (value of the check sequence as a linear form of the message bits)",
     AI + ". Messages are strings of n free octets, all bits symbolic; the computed check sequence must equal the bitwise reference CRC as an affine form, "
     "so one partition covers all 2^(8n) messages of a length.",
     "Exact for every message of each analysed length (0..12 and selected lengths to 300 quick, to 2047 thorough); other lengths are covered by the uniformity of the loop only. " + TRUST, [LITTLE])
prop("C11", "rules_hdlc", "abstract interpretation over affine bits and intervals",
     AI + ". Inputs: every 11-bit length with both segmentation values, every longer and negative length, all 65536 fields and fields of other sizes.",
     "Decides every clause for all inputs. " + TRUST)
prop("C12", "rules_hdlc", "abstract interpretation over affine bits and intervals",
     AI + ". Inputs: all pairs of 14-bit addresses with automatic and forced length, all integers out of range, every four-octet field and truncated fields.",
     "Decides every clause for all inputs. " + TRUST)
prop("C13", "rules_hdlc", "table rule on the resolved enumeration plus abstract interpretation of the classifiers",
     "The declared control octets are read from the source as constants and each name's meaning is compared with the octet layout of ISO/IEC 13239; the classifiers are "
     "interpreted on every declared octet.",
     "Decides the table and the classifiers for all declared octets. " + TRUST)
prop("C14", "rules_hdlc", "abstract interpretation of the sequence arithmetic over its finite domain",
     AI + ". Domain: all 128 information octets and all receive-ready octets, partitioned by N(S), N(R), P/F.",
     "Exact over the finite domain. " + TRUST)
prop("C15", "rules_hdlc", "abstract interpretation with affine-bit check sequences; acceptance implies validity, octet for octet",
     AI + ". Frames are built from free address, control and information octets and decoded again; arbitrary octet strings of fixed sizes are decoded and every accepting partition "
     "must imply a valid frame; truncated and damaged frames are offered to the stream extractor.",
     "Exact for the analysed address sizes, information sizes and receive sizes; other sizes rest on the code being uniform in size. " + TRUST, [LITTLE])
prop("C16", "rules_hdlc", "abstract interpretation of the joiner over frames with free information octets",
     AI + ". Queues of 1..4 (thorough 9) segments with symbolic information fields, with missing, repeated or foreign frames.",
     "Exact for the analysed queue lengths. " + TRUST)
prop("C17", "rules_hdlc", "abstract interpretation over affine bits and intervals",
     AI + ". Proposal: all lengths 32..2030, selected windows. Response: each parameter with 1, 2 and 4 free octets, full responses in three orders, malformed responses.",
     "Decides the parameter block and response parsing for the analysed block shapes. " + TRUST)
prop("C18", "rules_hdlc", "abstract interpretation over octets and byte-string segments",
     AI + ". All header octets and payloads of any length up to 65535 as one symbolic segment.",
     "Decides every clause for all inputs. " + TRUST)

SIZES = "Octet strings of any size are one symbolic segment with a symbolic length, so every content length of a stated interval is one partition. "
prop("C01", "rules_types", "class-table rule on the resolved classes plus abstract interpretation of the encoders",
     "The tags of all common data types and of all their subclasses in every module of the package are read from the resolved class objects and compared with the standard; " + AI + ". " + SIZES,
     "Decides tags for every class of the package and encodings of the base types for all contents up to 4 GiB; compact arrays are only checked for their tag. " + TRUST)
prop("C02", "rules_types", "abstract interpretation of the decoders over byte-string segments",
     AI + ". " + SIZES + "Inputs: free tag octet, all truncations, free remainder, for every base type, arrays, structures, nested values and the octet-string service types.",
     "Value shapes of arrays and structures are the listed ones; date types use one valid content per type. " + TRUST)
prop("C03", "rules_types", "abstract interpretation over affine bits and intervals",
     AI + ". For each of the eight integer types all 2^(8n) numbers are one vector of free bits and the numbers outside the range are two intervals; every subclass of the package with a declared sub-range is analysed the same way.",
     "Decides every clause for all integers; text forms are decided at the range boundaries only. Scaled registers are outside. " + TRUST)
prop("C04", "rules_types", "abstract interpretation over affine bits and intervals",
     AI + ". Lengths 0..2^32-1 as bit vectors, prefixes of 1..8 length octets and all truncations.",
     "Decides lengths below 2^32. " + TRUST)

prop("C05", "rules_types", "typestate analysis of set(): abstract interpretation with recording and refusing callbacks",
     AI + ". For every common data type the assignment is interpreted with callbacks that record their order and inspect the object, with a refusing pre-assignment callback, and with invalid values; the object's encoding before and after is compared.",
     "New values are free octets of the type's size; invalid values are the listed kinds. " + TRUST)
prop("C06", "rules_pdu", "abstract interpretation over intervals and byte-string segments (buffer size, cursor and lengths symbolic)",
     AI + ". The buffer is a concatenation of segments of any length, the cursor and the requested length are symbolic, so one partition covers all sizes.",
     "Decides every clause for all buffers up to 4 GiB per segment. " + TRUST)
prop("C07", "rules_pdu", "abstract interpretation over affine bits, intervals and byte-string segments; witness programs for declared sequences",
     AI + ". Elements are written at any position of a buffer of any size and read back; client programs declare sequences, optionals and choices and are analysed with the package.",
     "Sequences and nested data have the listed shapes. " + TRUST)
prop("C29", "rules_types", "abstract interpretation over affine bits",
     AI + ". Bit strings of the listed sizes with every bit free.",
     "Exact for the analysed sizes (0..32 selected quick, 0..128 thorough); single-bit edits are decided for first, middle and last bit. " + TRUST)
prop("C35", "rules_types", "class-table rule (declared elements against annotations) plus abstract interpretation of structure and array codecs",
     "Every Structure subclass of the package is resolved and its element table compared with its annotations; " + AI + ".",
     "Element values of package structures are their defaults; the generic codecs use free octets. " + TRUST)
prop("C37", "rules_types", "abstract interpretation over affine bits (equality, hash, copy as functions of the octets)",
     AI + ". Pairs of values with free octets per type, cross-type pairs with equal octets.",
     "String values have 0, 1 or 3 octets; date values two samples. " + TRUST)

prop("C30", "rules_names", "symbol resolution over the syntax tree of every module against the abstractly loaded module and class objects",
     "Every module of the package is loaded by the interpreter in the package's import order; every name load is resolved through its scopes and every attribute "
     "chain rooted at a module or class is looked up in the resolved objects.",
     "Attributes of instances are only checked against the names the package or the standard library defines anywhere. " + TRUST)

prop("C21", "rules_values", "abstract interpretation over integers (unbounded version parts) and formatted text",
     AI + ". Version parts are unbounded symbolic integers, present or absent patches, two additional texts; pairs, triples and lists of variants.",
     "Order and equality for all numbers; suffix texts and texts that are no version are the listed ones; lists of up to 2 (thorough 3) variants. " + TRUST)

prop("C20", "rules_values", "abstract interpretation over free octets and formatted text of symbolic numbers",
     AI + ". All six octets free, all six numbers of a text symbolic, each group outside 0..255, every shortened form; the search key of a name is compared across all forms a name is given in.",
     "Decides every clause for all names; text that is no sequence of numbers is the listed kinds. " + TRUST)

prop("C36", "rules_values", "abstract interpretation over the 256 values plus a table rule on the resolved group objects",
     AI + ". All values and all pairs of values; every group object of the module is resolved and its medium and hash are compared.",
     "Decides every clause for all values 0..255. " + TRUST)

prop("C31", "rules_values", "abstract interpretation over octet strings of any size with arbitrary stand-ins for digest, cipher and file",
     AI + ". The digest is an arbitrary function of the octets it is given, the cipher garbles the first block as CBC with a foreign vector does, the loaded file is free; so the analysis decides which octets "
     "the digest is computed over, which octets it is compared with and what is handed out in each outcome.",
     "The key strength, the padding and the digest function themselves are the libraries'. Files hold up to 2+2 (thorough 3+3) items. " + TRUST)

prop("C08", "rules_service", "abstract interpretation over free octets and byte-string segments; witness programs for declared sequences, optionals and choices; class-table rule for the data choices",
     AI + ". " + SIZES + "All leading bytes of every choice; every descriptor with all octets free and every truncation; client programs declare sequences and choices of their own.",
     "Client sequences have the listed shapes; texts are the listed ones. " + TRUST)
prop("C09", "rules_service", "abstract interpretation over the bits of the octet",
     AI + ". The octet's eight bits are free; parts are all values of their range and all numbers outside.",
     "Decides every clause for all octets. " + TRUST)

prop("C19", "rules_dates", "abstract interpretation over intervals and octets; the calendar is a stand-in written in plain Python with an arbitrary weekday",
     AI + ". Year, month, day, weekday, hour, minute, second, hundredths, deviation and clock status are free numbers, the real weekday of a day is arbitrary, so every accepting partition is compared with the standard's "
     "ranges; setters get every number.",
     "The library calendar is replaced by its definition (month lengths, leap years); texts are the listed ones. " + TRUST)

prop("C34", "rules_tables", "table rule on the resolved enumerations, classes and constants, plus abstract interpretation of the constructors over all octets",
     "Every named number of the enumerations, class identifiers and constants is read from the resolved program and compared with the numbers of the Green Book and Blue Book; "
     "every element table is decided by interpreting the constructor on every octet; sibling tables are compared with each other.",
     "The reference table is written in sa/rules_tables.py; texts of the shipped configuration are compared by number only. " + TRUST)

prop("C23", "rules_ic", "table rule on the declared elements plus abstract interpretation of accessors and numbered access with marked attributes",
     "The elements declared by every interface class of the package are read from the resolved class and compared, position by position, with the Blue Book; every accessor is "
     "interpreted on an object whose attributes are distinct marks and must give the mark of its number; numbered access outside 1..n is interpreted for all integers.",
     "Numbers outside the range are decided on five classes of different sizes, the code being the base class's; elements of the standard the package does not declare are outside. " + TRUST)

prop("C32", "rules_meter", "abstract interpretation over free image octets, all block numbers and the sizes of image and block",
     AI + ". Images of 1..9 (thorough 1..14) free octets in every relation to the block size, all integers as block numbers outside the image, images loaded after another one at every position.",
     "Larger images are three fixed ones. The image status reported by a meter is not read by the code and not modelled. " + TRUST)

prop("C33", "rules_meter", "abstract interpretation over free identifiers of table rows",
     AI + ". Tables of up to 3 (thorough 4) rows with free identifiers, added, replaced as a whole or renamed; every number and every pair of octets as schedule index; calendars of up to three days, weeks and "
     "seasons with free identifiers in all places, active and passive.",
     "Row contents other than identifiers are samples; identifiers of names have one octet. " + TRUST)

prop("C22", "rules_access", "abstract interpretation of the right predicates over every access mode, policy and name",
     AI + ". Every access mode of every association version in a list among other objects and entries, every security policy bit, names with six free octets, attribute and method numbers without entry, "
     "and the answers of a collection after its objects list changed.",
     "Lists hold up to three objects. " + TRUST)

prop("C24", "rules_maps", "facts over the class maps held by the analysed package and abstract interpretation of the class lookup",
     AI + ". Every entry of every class map of every table against the numbers the class declares, every class identifier and version against the lookup, restricted entries for every pair of numbers, and "
     "objects made and refused by a collection.",
     "Version dummies of classes without support refuse to make objects. " + TRUST)

prop("C25", "rules_maps", "abstract interpretation of the table lookup for names with six free octets and facts over every expanded key",
     AI + ". Tables with every subset of the four kinds of entries, every shape of an entry, all keys of all tables against reachability, and the codes of the standard against the classes they admit.",
     "The tables of the standard are sampled at group ends in the quick tier. " + TRUST)

prop("C26", "rules_maps", "abstract interpretation of the grouping functions for names with free value groups",
     AI + ". Every name of every medium with B, D, E and F free, the codes of the standard's groups, media of every value, and trees of objects under every mode.",
     "Trees hold up to six objects. " + TRUST)

prop("C28", "rules_coll", "abstract interpretation of the identity setters for free values and orders",
     AI + ". Every pair of first and second value of every part of the identity, values that are false as conditions included, repeated attempts, the force path, and versions of instances.",
     "Octet values up to 3 octets. " + TRUST)

prop("C40", "rules_coll", "abstract interpretation of histories of a collection against the set of objects they leave",
     AI + ". After every step of every history of additions and removals all answers of the collection are compared with the objects added and not removed.",
     "Histories of up to three steps over five names. " + TRUST)

prop("C41", "rules_coll", "abstract interpretation of filters, patterns, orders and attribute trees against their definition",
     AI + ". Patterns for every name, filters and orders over mixed objects, attribute trees for every access mode of every listed object.",
     "Up to twelve objects. " + TRUST)

prop("C27", "rules_xml", "abstract interpretation of every writer of a collection file followed by its reader over free attribute values",
     AI + ". The document library is a model of elements, names, attributes, texts and files; for every pair the values written, the identity and the marks are the ones read.",
     "The document library is trusted to give back what it was given. " + TRUST)

prop("C42", "rules_named", "abstract interpretation of named accessors and address lookups over mixed collections",
     AI + ". Every named accessor among all the other named objects, every channel and instance number, associations of every client address, and object lists in every order.",
     "Collections of up to thirty objects and five associations. " + TRUST)

prop("C43", "rules_named", "abstract interpretation of the columns a profile derives from its captured attributes, over free values",
     AI + ". Captured attributes, structure elements and values of several classes; entries decode column by column with the types of what was captured, other shapes are refused.",
     "Up to five columns and two entries; the default selection. " + TRUST)

prop("C44", "rules_setup", "abstract interpretation of setup objects and code texts over their whole ranges",
     AI + ". Every negotiation response of the parameters with free values, every address, port, status octet and mode.",
     "Negotiation parameters of one to four octets. " + TRUST)

prop("C45", "rules_depend", "abstract interpretation of registers, limiters, monitors and arbitrators in every order of setting their parts",
     AI + ". Every order of the parts, every numeric type with free octets, objects monitored that are there, absent or empty; refusals keep what was there.",
     "Five scalers and three units; up to three rows of permissions and four actions. " + TRUST)

prop("C46", "rules_depend", "abstract interpretation of the chain season, week, day, action, rate over free identifiers and starts",
     AI + ". Every order of starts of up to three seasons and actions, free names, identifiers and rates; special days with every mix of specified and open parts.",
     "Dates are a list of cases of the pattern rules; calendar arithmetic of the standard library is trusted. " + TRUST)

prop("C47", "rules_report", "table of texts over the syntax tree; abstract interpretation of event texts and object reports",
     AI + ". Every event code of the standard's tables and codes beside them, every single flag and pair of flags, reports of simple and nested attributes with empty and open parts.",
     "Texts are those of the package's own tables. " + TRUST)

prop("C48", "rules_text", "abstract interpretation of text out and text in for every simple type and every listed value",
     AI + ". Every integer of every integer type, every octet number of every enumeration, strings of up to 200 octets, all bit-string sizes at octet bounds; every octet for the text that is shown; typed text of every basic kind with the cursor anywhere.",
     "Floating-point numbers (C38), moments (C19) and logical names (C20) are left to their own properties; text with a scaler is arithmetic of floating-point numbers. " + TRUST)
prop("C49", "rules_text", "abstract interpretation of an association's callbacks, secrets, lists and descriptors",
     AI + ". Every order of secret and mechanism, secrets of seven lengths, hidden and open texts, lists of up to four rows with repeated ones, all attributes with and without selection.",
     "Mechanisms 3..7 have no secret in the package and are left out. " + TRUST)

prop("C38", "rules_floats", "abstract interpretation with the platform's float and struct conversions as uninterpreted functions (constants folded)",
     AI + ". Any whole number and any octets: what the package makes of them must be the platform's conversion of the same number as a term; thirty-three numbers at rounding, range and subnormal bounds are folded as constants, with text, setter, copy and the other width.",
     "Nearest rounding itself is that of the platform's struct.pack; a conversion written by hand is decided on the listed numbers only (free numbers stay undecided). " + TRUST)

prop("C50", "rules_firmware", "abstract interpretation of the callbacks of the firmware identifier against the versions of its collection",
     AI + ". Versions of one and two digits and more in every part, with and without a patch, by attribute and by value, first and later, several instances, the version of the collection changed or cleared.",
     "Numbers of a version are chosen at bounds, not free (they pass through text). The order of versions with further text is C21's. " + TRUST)

prop("C51", "rules_scaled", "abstract interpretation with floating-point arithmetic on constants folded by the platform",
     AI + ". Every width and sign, scalers -9..9, units with and without a scaler of their own, numbers at bounds, powers of ten and beside; text, number, report, copy, limits, order of setting.",
     "Numbers are chosen, not free (floating-point arithmetic), and have at most fifteen digits. " + TRUST)

NOT_APPLICABLE = {
    "C39": "linearizability of concurrent histories quantifies over schedules; the package has no locks or thread primitives whose pairing a static rule could check",
}


def checker(pid):
    m = importlib.import_module(SPEC[pid]["mod"])
    return getattr(m, "check_" + pid)
