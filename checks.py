"""What each property's check consists of: the Verus units that carry its contracts, the level claimed,
and what stays assumed.  `fns`, when given, limits which lifted functions' obligations count for it."""
IO = "std::io Read/Write/Seek and byteorder behave as the assumed stream contracts say (units/prelude/io.rs)"
USIZE = "usize is 64 bits wide"
DERIVE = "derived PartialEq/PartialOrd/Clone are structural"
PROPS = {
    "P01": dict(
        level="proof", units=["pak"], secs=8,
        note="Verus proves, for all contents/versions/block sizes, that what the entry writer appends is read back by the entry reader "
             "(header codec, method numbering, block table, compression). Index/footer/reader/writer objects are covered by the executable "
             "contracts only (bounded). Trusted: std::io, byteorder, flate2 losslessness, SHA-1 as an uninterpreted function.",
        bounded=["PakWriter/PakReader/PakMemory, Index and Footer: executed contracts on generated archives"],
        assumptions=[IO, USIZE, DERIVE, "flate2 zlib is lossless and its output is at most 2n+64 bytes", "block size >= 1, content < 4 GiB"]),
    "P02": dict(
        level="proof", units=["pak"], secs=8,
        note="Verus proves for every entry written: sizes, digest, block table (contiguous, starting after the header, absolute before version 5) "
             "and header length. Index and footer layout are covered by the executable contracts only (bounded).",
        bounded=["Index and Footer layout: executed contracts on generated archives"],
        assumptions=[IO, USIZE, DERIVE, "block size >= 1, content < 4 GiB"]),
    "H01": dict(
        level="proof", units=["strs"], secs=6,
        note="Verus proves every reader and writer of read_ext.rs/write_ext.rs against one stored form: writers append exactly it and return its size, readers "
             "given it consume exactly it and return the value, malformed counts are errors, and nothing overflows or panics. Trusted: std::io, byteorder, UTF-8/UTF-16 conversions of std.",
        assumptions=[IO, USIZE, "String::from_utf8/from_utf16 invert the encodings they name", "element closures of read_array/write_array behave as functions of the stream"]),
    "H02": dict(
        level="proof", units=["guid"], secs=6,
        note="Verus proves every From conversion and the constructors little-endian and mutually inverse for all 2^128 guids. Display/FromStr/serde are covered by executable contracts (bounded).",
        bounded=["Display, FromStr, Serialize, Deserialize of Guid: executed contracts on generated guids and strings"],
        assumptions=["std's to_le_bytes/from_le_bytes are the little-endian codecs"]),
    "H03": dict(
        level="proof", units=["path"], secs=6,
        note="Verus proves the mapping over assumed contracts of std::path and regex; the executable contracts run the real function, regex and std::path included.",
        assumptions=["regex ^/Game matches exactly a leading /Game; std::path's extension/set_extension act on the last component"]),
    "H04": dict(
        level="proof", units=["bits"], secs=6,
        note="Verus proves the loop of set_range_from_range for all lists, offsets and lengths over an assumed contract of bitvec's get/set.",
        assumptions=["bitvec's get and set address single bits", "offset+length fits usize"]),
    "N02": dict(
        level="proof", units=["crc"], secs=6,
        note="Verus proves both lookup tables equal to their polynomials (by computation) and every hash function equal to the bit-wise definition for all strings. "
             "Trusted: encode_utf16, ASCII case mapping, CityHash itself.",
        assumptions=[USIZE, "naive_cityhash::cityhash64 is a function of the bytes (its unchecked sums wrap, as in release builds)", "the target is little-endian (align_to::<u8>)",
                     "the two static tables are read as the lifted literals"]),
    "A02": dict(
        level="proof", units=["ac7"], secs=6,
        note="Verus proves every function of ac7.rs, including the multiply-and-shift division, index bounds, and the end-to-end theorem decrypt(encrypt(x)) = x after the tag. "
             "Trusted: str::to_uppercase is a function of the text; the key file's length is read at lift time.",
        assumptions=[USIZE, "str::to_uppercase is a function of the text", "the included key file has the length it has on disk"]),
    "C01": dict(
        level="proof", units=["imap"], secs=8,
        note="Verus proves the coupling invariant of the four structures is kept by new, insert, entry operations, mutable lookups and both removals, and states every lookup, len and "
             "by-reference iteration over the one list of entries they stand for. Mutable/owned/by-key iterators (unsafe code), clone, equality and bulk builds: executable contracts (bounded).",
        bounded=["iter_mut/into_iter/iter_key*/values/keys, Clone, PartialEq, Extend, FromIterator, OccupiedEntry::remove*: executed contracts on generated histories"],
        assumptions=[USIZE, "slab::Slab, FxHashMap and BTreeMap behave as finite maps; K's Eq/Hash agree with equality", "fewer than 2^64 insertions",
                     "keys are looked up as K itself (Borrow to another type is not modelled)"]),
    "C02": dict(
        level="proof", units=["chain"], secs=6,
        note="Verus proves Chain::new, read and seek equal to one stream holding the concatenation, for all parts and operation sequences (the invariant is kept by every operation). "
             "Trusted: the parts' own Read/Seek contracts.",
        assumptions=[USIZE, "each part reads and seeks as std::io documents; together they hold fewer than 2^63 bytes"]),
    "N01": dict(
        level="proof", units=["names"], secs=6,
        note="Verus proves the invariant of the name table (every lookup entry points at its own text; every listed text is found) kept by new, from_name_batch, add_name_reference and the FName "
             "constructors, and states the result of every lookup for all 32-bit indexes. SharedResource (Rc/RefCell or Arc/RwLock) and FName's Debug/Eq glue: executable contracts (bounded).",
        bounded=["FName equality, clone_resource, SharedResource: executed contracts on generated histories"],
        assumptions=[USIZE, "IndexedMap behaves as C01 proves; hashing of a text is a function of the text without collisions between listed names", "fewer than 2^31 names"]),
    "T01": dict(
        level="proof", units=["pidx"], secs=6,
        note="Verus proves the conversions and every import/export lookup, search and addition for all 32-bit indexes and table sizes below 2^31.",
        assumptions=[USIZE, "fewer than 2^31 imports and exports", "FName::eq_content compares texts (N01)"]),
    "V01": dict(
        level="proof", units=["unv"], secs=6,
        note="Verus proves fragment packing, running totals, mask width, has_non_zero_values, the exact bytes read and written, and that the stored form determines the header, for all fragment sequences; "
             "and both functions of the two-byte name header.",
        assumptions=[IO, USIZE, "bitvec's from_vec/resize/as_raw_slice/len address the bits of their bytes, lowest bit first", "a header of fewer than 2^24 bytes"]),
    "V02": dict(
        level="proof", units=["vers"], secs=6,
        note="Verus proves get_object_versions, get_possible_versions, guess_engine_version, both custom version lookups, CustomVersion::new and the default container for all inputs, over the lifted version lists, "
             "which are proved by computation to list every released engine with the object versions it has; and that versions never decrease. Number/symbol conversions (num_enum derive) and the guid table's contents: executable contracts (bounded).",
        bounded=["TryFrom/Into of the version enumerations, contents of GUID_TO_VERSION_INFO, CustomVersion::read/write, set_engine_version: executed contracts"],
        assumptions=[DERIVE, "iterator adapters are evaluated at once instead of on demand (closures without effects)", "HashMap get/iter over GUID_TO_VERSION_INFO behave as a finite map", "Vec::sort sorts"]),
    "K01": dict(
        level="proof", units=["kismet"], secs=8,
        note="Verus proves, for every expression tree, that reading consumes exactly the stored form of the value it returns and that writing produces exactly that stored form and reports its in-memory size, "
             "for all 90 expression kinds (the declare_expression macros are expanded mechanically), against a byte layout kept independently of the code; and that the tokens have the format's numbers. "
             "KismetExpression::new is proved once per group of first bytes (23 groups that cover all bytes). Archive primitives are assumed contracts.",
        bounded=["to/from trees through the real archives, garbage input: executed contracts on generated trees"],
        assumptions=[USIZE, "ArchiveReader/ArchiveWriter primitives read and write the little-endian form of their values; a name is stored as 8 bytes that determine it (N01)",
                     "enum_dispatch forwards each trait call to the variant's own method; num_enum's conversions follow the declared numbers",
                     "f32 to f64 to f32 is the identity except for NaN payloads", "the in-memory size of the expression fits usize", "termination of the readers (they consume at least one byte per step) is not proved"]),
    "M01": dict(
        level="proof", units=["meta"], secs=6,
        note="Verus proves schema dispatch (from_slice), the upgrade of old metadata (v1::Metadata::to_v2: every field and every moved entry), Dependency::from_str and field-wise equality, "
             "over assumed contracts of serde's derived deserialisers. Deserialisation, saving, hashing and malformed documents: executable contracts (bounded).",
        bounded=["serde derives and attributes, string_or_struct, saving and loading, Hash, rejection of malformed documents: executed contracts on generated documents"],
        assumptions=["serde_json's derived deserialiser of each schema is a function of the document and reports malformed documents as errors", "HashMap behaves as a finite map", "semver's VersionReq::parse is a function of the text"]),
    "R01": dict(
        level="proof", units=["reg"], secs=8,
        note="Verus proves the readers and writers of asset data, tags, package data, cooked hashes, custom versions, asset identifiers and (before flags) dependency nodes against one stored form "
             "per record kind and registry version, and the archive's array reader. Flagged dependency lists, the whole-registry framing and the name table are covered by the executable contracts only (bounded).",
        bounded=["DependsNode::load_dependencies/save_dependencies (sorting, bit sets), AssetRegistryState::new/load/write, name table reader/writer: executed contracts on generated registries"],
        assumptions=[IO, USIZE, DERIVE, "archive reads and writes of names and strings invert each other (N01, H01)", "IndexedMap inserts new keys last (C01)", "EPackageFlags::from_bits keeps the bits it accepts"]),
    "U01": dict(
        level="proof", units=["usmap"], secs=8,
        note="Verus proves the readers of property types (recursive), properties, schemas and their expansion, the enum and schema tables, the property lookup through class and ancestry with its global position, "
             "and the archive's array readers, against the stored form of a mappings file. The outer framing (magic, version, compression, name table, module paths) is covered by the executable contracts only (bounded).",
        bounded=["Usmap::parse_data framing, decompression and name table; UsmapReader::read_name: executed contracts on generated mappings files of every version and compression"],
        assumptions=[IO, USIZE, DERIVE, "the names of one mappings file's name table are distinct", "IndexedMap is a finite map that keeps insertion order (C01)", "counting properties does not overflow", "class inheritance in the file is acyclic"]),
    "S01": dict(
        level="proof", units=["props"], secs=8,
        note="Verus proves the readers and writers of 90 or so value kinds (numbers, strings, texts, names, references, delegates, enums, vectors, colours, curves, material inputs, samplers, world tile records, "
             "movie-scene records, trees and channels) against one stored form per kind and engine-version feature: reading consumes exactly the stored form of the value returned, writing appends exactly it and returns "
             "the size of the value without its tag fields. Archive primitives are assumed contracts; the kinds that embed property lists are covered by the executable contracts only (bounded).",
        bounded=["ClothLodData, MovieSceneEvalTemplatePtr, MovieSceneTrackImplementationPtr, MovieSceneSequenceInstanceDataPtr, MovieSceneSegment, SectionEvaluationDataTree, NiagaraVariable, RawStructProperty, UniqueNetId, "
                 "EmptyProperty and the enum dispatch of Property: executed contracts on generated values"],
        assumptions=[USIZE, DERIVE, "ArchiveReader/ArchiveWriter primitives read and write the little-endian form of their values (H01); a name is stored as 8 bytes that determine it (N01)",
                     "lists hold at most 2^31-1 elements, as their stored counts require", "f32 to f64 to f32 is the identity except for signalling NaNs", "num_enum's conversions follow the declared numbers",
                     "element readers passed as function pointers are functions of the stream (each is proved as such where it is passed)"]),
    "S02": dict(
        level="proof", units=["plist"], secs=10,
        note="Verus proves, for every version and in both directions, Property::new and Property::write (tag, back-patched size, value), StructProperty (tag fields, list of properties or the type's own form, with its version exceptions and the "
             "FloatRange look-ahead), ArrayProperty (with the tag describing the structs inside and its back-patched size), SetProperty and MapProperty, against one stored form of tagged lists and containers kept independently of the code. "
             "The dispatch over types is an assumed contract; value kinds without lists inside are S01's. Both, and the further containers, are covered by executable contracts (bounded): the list is assembled byte by byte from a "
             "generated tree, read, compared with the tree and written back; edited trees are written, read back and compared.",
        bounded=["Property::from_type, has_custom_serialization, to_serialized_name (dispatch), ClothLodData, movie-scene and particle containers, type overrides of maps and arrays: executed contracts on generated trees"],
        assumptions=[USIZE, "tagged (versioned) property lists, without mappings; type names are stored as the name of the type without a number, and no tag names the type FloatRange", "the sizes stored in tags are not relied on by readers (they are what the writer must fill in)",
                     "tags inside arrays carry no guid; struct arrays have counts of zero or more; the keys of one map are distinct (IndexedMap: C01)", "streams are shorter than 2^63 bytes", "termination of the readers is not proved; a panic counts as no result"]),
    "E01": dict(
        level="proof", units=["exports"], secs=10,
        note="Verus proves, for every version, that reading consumes exactly the stored form of the value it returns and that writing produces exactly that form, against a layout kept independently of the code, for the bodies of "
             "normal, raw, world, level, property, enum, string table, struct, function, class and user defined struct exports, UEnum and all UProperty and FProperty kinds (the parse_simple_property macros are expanded mechanically), "
             "including the fallback to raw bytecode, the back-patched bytecode sizes and the seeks over the interfaces of old classes. Data tables and unversioned packages: executable contracts (bounded): bodies of every export kind are "
             "assembled byte by byte from generated values for every engine version, read, compared and written back.",
        bounded=["from_base/write of DataTableExport, get_normal_export/get_base_export, dispatch over Export: executed contracts on generated bodies"],
        assumptions=[USIZE, "packages with tagged properties; Property::new/write (T01/S02 proofs of the property kinds), KismetExpression (K01), IndexedMap (C01) and archive primitives as contracts",
                     "names of types and the closing None are stored as their own name map entry with number 0", "bitflags' from_bits keeps the bits and num_enum's conversions follow the declared numbers; enum_dispatch forwards to the variant",
                     "streams are shorter than 2^63 bytes and the in-memory size of bytecode fits usize", "termination of the readers is not proved"]),
    "A01": dict(
        level="proof", units=["asset"], secs=12,
        note="Verus proves, for every object version, the reader and the writer of the package summary (parse_header, write_header, custom version container, generations, engine versions, every offset and count) and of the export map "
             "entries, with their conversions from and to exports, against one layout per version kept independently of the code, and the lemma that a summary written again with the same layout is the summary read. The placement of the "
             "sections and the offsets filled in on the second pass, the names, imports, depends and preload lists: executable contracts (bounded): whole packages are assembled byte by byte for every engine version, with and without "
             "bulk file, read, written back and compared; edited packages are written, read again and compared with the edit, and every offset and count of the written header is followed.",
        bounded=["Asset::new/parse_data/write_data (placement of sections), names, imports, depends map, preload lists: executed contracts on generated packages and edits"],
        assumptions=[USIZE, "cooked packages laid out in the cooker's order, as the property states", "Asset's own archive operations pass through to its raw reader", "num_enum conversions follow the declared numbers; from_bits keeps the bits it accepts",
                     "without version mappings for custom versions; the set of guids built from the container is abstract", "lists of a capacity that could be reserved are shorter than 2^63"]),
    "N03": dict(
        level="proof", units=["visits", "rebuild"], secs=8,
        note="Proved: every FNameContainer implementation, derived or hand-written, as rustc expands it on this run (FName, Vec, Box, Option, SharedResource, both IndexedMap forms, tuples, leaves and "
             "every struct and enum of the five crates that has one): the names handed to the visitor are exactly the names of all parts, each once, in place, and nothing else changes; a part left out must be of a type "
             "through whose declared parts no name can be reached. Proved: what rebuild_name_map does with a visited name (text and number kept, resolves in the asset's table, tables only grow by the text of a name in use) and that "
             "later visits keep it. Executed contracts (bounded): whole visits to generated values and whole rebuilds, compared with the names found by walking the value's printed structure.",
        bounded=["whole traversals and rebuild_name_map on generated assets (the induction over nesting that composes the per-type contracts is not itself checked by the verifier)"],
        assumptions=[USIZE, "the parts of a type are opaque: a part's traversal is its own type's contract (proved for that type in the same unit); names below a part are an uninterpreted multiset, empty for types from whose declared parts "
                     "(by name, over all five expanded crates) FName cannot be reached",
                     "RefCell::borrow_mut gives the one value behind a handle; NameMap::add_name_reference and FName::get_owned_content as proved in unit names; name table comparison implies equal texts"]),
}
NOT_APPLICABLE = {}
LEVEL_NOTES = {}
