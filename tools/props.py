#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
B = "unreal_asset/unreal_asset_base/src/"
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": hook}}
L = [
P("P01", "Files written to a pak archive are read back byte for byte",
  "For every supported pak version, compression setting, block size of at least 1 and set of named files, an archive that was written and finished lists exactly the names written and returns for each of them exactly the bytes written, and the same holds for an archive loaded into memory, edited and written again. Writing a name twice or finishing twice is refused or harmless, and never changes what the other names return. Reading a truncated or damaged archive gives an error or the right bytes, never a crash.",
  ["inputs", "configurations", "histories"], "all file names, contents, pak versions 1-11 (1-9 writable), compression on/off, block sizes >= 1, orders of writes, edits of an in-memory archive",
  "no test of the suite writes a pak at all; only fixed archives could be sampled", 
  ["unreal_pak/src/entry.rs", "unreal_pak/src/header.rs", "unreal_pak/src/index.rs", "unreal_pak/src/compression.rs", "unreal_pak/src/pakwriter.rs", "unreal_pak/src/pakreader.rs", "unreal_pak/src/pakmemory.rs"],
  [("entry writer/reader pair", "unreal_pak/src/entry.rs"), ("entry header codec", "unreal_pak/src/header.rs"), ("index and footer codec", "unreal_pak/src/index.rs"), ("method numbering and block compression", "unreal_pak/src/compression.rs")],
  observe=["PakWriter/PakMemory -> bytes -> PakReader"]),
P("P02", "Pak entry headers, block tables, hashes and footer describe the stored bytes",
  "In every archive written, each entry's recorded sizes are its stored and original lengths, its digest is the SHA-1 of the stored bytes, its compression blocks start right after the entry's own header, follow each other without gap and end at the entry's last byte, and offsets are absolute before version 5 and entry-relative from then on. The index lists every entry at the offset where its header really is, and the footer gives the index's real offset, length and SHA-1 in the layout of its version.",
  ["inputs", "configurations"], "all file contents, versions, compression settings and block sizes",
  "no test inspects written pak bytes",
  ["unreal_pak/src/entry.rs", "unreal_pak/src/header.rs", "unreal_pak/src/index.rs"],
  [("header length computation and block table", "unreal_pak/src/entry.rs"), ("footer layout", "unreal_pak/src/index.rs")],
  observe=["bytes produced by PakWriter/PakMemory"]),
P("H01", "Strings, flags, arrays, byte runs and guids survive writing and reading",
  "Any text (absent, empty, ASCII or Unicode) of at most 131072 characters, any flag, any list and any guid written in Unreal form is read back unchanged, consuming exactly the bytes written, and the byte count reported for a written string is the number of bytes written. The stored form is Unreal's own: a 32-bit count that includes the terminator, negative for UTF-16, then the text and a zero terminator. Malformed or truncated bytes give an error, never a crash.",
  ["inputs"], "all strings, lists, flags, guids; all byte sequences as input of the readers",
  "tests sample a few strings and two flags; no arrays, no malformed input, no returned sizes",
  ["unreal_helpers/src/read_ext.rs", "unreal_helpers/src/write_ext.rs"],
  [("string codec", "unreal_helpers/src/read_ext.rs, write_ext.rs"), ("array codec", "unreal_helpers/src/read_ext.rs, write_ext.rs")],
  observe=["bytes written", "values read", "stream position"]),
P("H02", "Guids convert losslessly between bytes, integers and text",
  "Converting a guid to four 32-bit words, to a 128-bit integer, to text or to JSON and back gives the same guid for every one of the 2^128 guids, with the words and the integer little-endian. Text of 32 hex digits, dashes anywhere among them ignored and surrounding blanks or braces allowed, parses to the guid it spells, as does the single digit zero to the zero guid; any other number of digits or any other character is rejected with an error, never a crash.",
  ["inputs"], "all 128-bit values; all strings", "no test converts a guid",
  ["unreal_helpers/src/guid.rs"], [("conversions", "unreal_helpers/src/guid.rs")], observe=["conversion results"]),
P("H03", "Game paths map to the file they name on disk",
  "For every path whose last component is a plain file name: the path is mapped exactly when it starts with the game root, and the result is the game's name, its content directory and the rest of the path unchanged, with the default asset extension added exactly when the last component has no extension of its own. Every other path is refused.",
  ["inputs"], "all game names and paths", "tests sample four paths",
  ["unreal_helpers/src/path.rs"], [("prefix replacement", "unreal_helpers/src/path.rs")], observe=["returned path"]),
P("H04", "Copying a bit range changes exactly that range",
  "Copying a run of bits from one bit list into another makes every target bit equal to its source bit (or zero past the end of the source) and leaves every other bit and the length as they were.",
  ["inputs"], "all bit lists, offsets and lengths within the target", "one test samples one copy",
  ["unreal_helpers/src/bitvec_ext.rs"], [("set_range_from_range", "unreal_helpers/src/bitvec_ext.rs")], observe=["target bits"]),
P("C01", "The indexed map stays one consistent map under any history",
  "After any sequence of insertions, replacements, removals by key or by index, entry operations, clones and bulk builds, lookup by key, lookup by insertion index, length and every iteration order describe the same set of entries: each key once, with the value last given to it, iterated in order of insertion. An entry keeps its insertion index until it is removed, no two live entries share an index, and removing one entry affects no other; no operation crashes.",
  ["histories"], "all operation sequences on all keys and values", "five tests insert and remove a handful of entries in one order",
  [B + "containers/indexed_map/mod.rs", B + "containers/indexed_map/entry.rs"],
  [("four coupled indexes", B + "containers/indexed_map/mod.rs")], observe=["lookups, iterators, len, equality"]),
P("C02", "A chained stream behaves as the concatenation of its parts",
  "Reading and seeking in a chain of two streams gives at every step the same bytes, counts and positions as reading and seeking in one stream holding the concatenation of the two, for every sequence of reads and seeks, including reads across the seam and seeks back over it.",
  ["inputs", "histories"], "all part contents, buffer sizes and operation sequences", "two tests do one pass over fixed bytes",
  [B + "containers/chain.rs"], [("seam handling", B + "containers/chain.rs")], observe=["read bytes, returned counts and positions"]),
P("N01", "The name table gives every name one stable index and its own text",
  "Adding a name returns an index at which exactly that text is stored, adding an existing name without asking for a duplicate returns the index it already has and changes nothing, and searching finds a name exactly when it was added. Indexes once given never change meaning, names built from the table report the text and instance number they were created with, and out-of-range indexes never crash.",
  ["histories", "inputs"], "all sequences of added names; all indexes", "tests only reach the table through whole assets",
  [B + "containers/name_map.rs", B + "types/fname.rs"], [("hash lookup plus ordered list", B + "containers/name_map.rs")], observe=["indexes, texts"]),
P("N02", "Name hashes are the engine's two CRCs for every string",
  "The stored name hash is the low half of the engine's case-insensitive legacy CRC and the low half of its CRC-32 over 32-bit code units, and the 64-bit name hash is the CityHash of the UTF-16 text with its ASCII letters lower-cased; both depend on the text alone and ignore ASCII case where the engine does.",
  ["inputs"], "all strings", "tests compare hashes of names that occur in sample assets only",
  [B + "crc.rs"], [("table-driven CRC", B + "crc.rs")], observe=["hash values"]),
P("N03", "Rebuilding the name table keeps every name's text",
  "Visiting the names inside a value reaches every name stored in it, however nested, once and in place, and changes nothing else. Consequently after rebuilding an asset's name table every name belongs to the asset's own table with the text and number it had, names already in the table stay where they were, and only names in use are added.",
  ["inputs"], "all values of every type that contains names", "one test edits one asset",
  [B + "types/fname.rs", "unreal_asset/unreal_asset_proc_macro/src/fname_container.rs", "unreal_asset/src/asset.rs"],
  [("derived traversal", "unreal_asset/unreal_asset_proc_macro/src/fname_container.rs")], observe=["names visited"]),
P("T01", "Package indexes name exactly one import or export, or nothing",
  "Turning an import or export position into a package index and back gives the same position, negative indexes are imports, positive ones exports and zero neither, and negative positions are refused. Looking an index up in an asset returns the import or export at that position and nothing for an index that is zero, of the other kind or out of range; adding an import returns an index that resolves to it, and searching gives the first import with the given names.",
  ["inputs", "histories"], "all 32-bit indexes; all table sizes", "lookups are reached with valid indexes only",
  [B + "types/mod.rs", "unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs"],
  [("sign encoding", B + "types/mod.rs"), ("table lookups", "unreal_asset/src/asset.rs, asset_data.rs")], observe=["lookup results"]),
P("V01", "Unversioned headers and name-batch headers decode and re-encode exactly",
  "The skip/keep fragments and zero mask read from an unversioned property header are the ones encoded, the property positions derived from them are the running totals of the fragments, the mask has the length its fragments require, and writing the header back gives the bytes it was read from. A name-batch header keeps its width flag and its length (below 32768) through writing and reading.",
  ["inputs"], "all fragment sequences and masks; all name lengths", "no test of this tree reads an unversioned asset",
  [B + "unversioned/header.rs", B + "types/mod.rs"], [("16-bit packing", B + "unversioned/header.rs"), ("two-byte name header", B + "types/mod.rs")], observe=["decoded fields, written bytes"]),
P("V02", "Engine and object versions are resolved consistently",
  "Each released engine version (4.0 to 5.2) has one pair of object versions, later engines never have earlier object versions, every version number converts to its symbol and back, and an unknown number is rejected. An engine version guessed from object versions and custom versions is one whose own versions agree with them (unknown when there is none), and the custom versions given to an engine version are, for each known type, the last value introduced at or before that engine.",
  ["inputs", "configurations"], "all engine versions, all integers, all custom version lists", "tests use a handful of engine versions",
  [B + "engine_version.rs", B + "object_version.rs", B + "custom_version.rs"], [("version tables", B + "engine_version.rs"), ("custom version defaults", B + "custom_version.rs")], observe=["resolved versions"]),
P("S01", "Every property value writes back the bytes it was read from and reports its size",
  "For every property type that holds a value (numbers, strings, texts, names, references, delegates, enums, vectors, colours, curves, material inputs, samplers, movie-scene data, unknown types kept as bytes, world tile records and the like) and every engine version with tagged properties: reading a stored value consumes exactly its bytes, writing what was read gives those bytes back, with or without its tag fields, and a value written and read back is the same value. The size the writer returns is the number of bytes of the value alone, which is what the tag records.",
  ["inputs", "configurations"], "all values of all leaf property types; all object and custom versions that change a layout", "tests cover only the properties occurring in sample assets",
  ["unreal_asset/unreal_asset_properties/src", B + "types/vector.rs", B + "types/movie.rs"],
  [("read/write pair of each property", "unreal_asset/unreal_asset_properties/src")], observe=["bytes, sizes, values"]),
P("S02", "Tagged property lists and containers write back exactly, nested to any depth",
  "A list of tagged properties, whose structs, arrays, sets, maps, cloth, particle and movie-scene containers hold further properties to any depth, is read up to its closing name and no further, and writing what was read gives the same bytes: every tag keeps its name, type, duplication index, array or struct type and guids, every recorded size is the size of the value that follows, and no element, removed key or removed item is lost or reordered. Sizes are recomputed when the content changes, so an edited list is read back as edited.",
  ["inputs", "histories", "configurations"], "all property trees; engine versions with tagged properties", "tests cover only the property trees occurring in sample assets",
  ["unreal_asset/unreal_asset_properties/src/lib.rs", "unreal_asset/unreal_asset_properties/src/struct_property.rs", "unreal_asset/unreal_asset_properties/src/array_property.rs", "unreal_asset/unreal_asset_properties/src/set_property.rs", "unreal_asset/unreal_asset_properties/src/map_property.rs"],
  [("tag reader and writer", "unreal_asset/unreal_asset_properties/src/lib.rs")], observe=["bytes, sizes, values"]),
P("K01", "Kismet bytecode writes back exactly and its sizes are right",
  "Every expression of the script bytecode, nested to any depth, written and read back is the same expression and reading consumes exactly the bytes written. The in-memory size reported while writing is the size the engine's virtual machine gives the expression, which code offsets are measured in: 1 byte for each token, 12 for each name, 8 for each object or property reference whatever its stored form, and the encoded length of every other operand.",
  ["inputs"], "all expression trees", "tests cover only the expressions in sample assets",
  ["unreal_asset/unreal_asset_kismet/src/lib.rs"], [("read/write pair of each expression", "unreal_asset/unreal_asset_kismet/src/lib.rs")], observe=["bytes, sizes"]),
P("E01", "Every kind of export writes back the bytes it was read from",
  "A normal, class, struct, function, enum, property, data table, string table, level or raw export that is written and read back is the same export, consuming exactly the bytes written, and one that was read writes exactly the bytes it was read from.",
  ["inputs", "configurations"], "all export bodies and engine versions", "tests cover only the exports in sample assets",
  ["unreal_asset/unreal_asset_exports/src", "unreal_asset/src/asset.rs"], [("read/write pair of each export", "unreal_asset/unreal_asset_exports/src")], observe=["bytes"]),
P("A01", "An asset that was read and written back is the same file",
  "Reading a cooked asset and writing it unmodified gives the original files byte for byte, with or without a separate bulk file, provided its sections lie in the order the cooker writes them in, the parts cooking leaves out (thumbnails, searchable names, gatherable texts, asset registry data) are absent, and its counts and name hashes are its own. After edits to names, imports or exports the written asset's header counts, offsets and sizes describe the bytes that follow, so that it can be read again and holds the edited content.",
  ["inputs", "configurations"], "all assets and engine versions; all edits through the public interface", "tests write back a fixed set of sample assets",
  ["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/src/package_file_summary.rs", B + "import.rs", "unreal_asset/unreal_asset_exports/src/base_export.rs"],
  [("header writer with second pass over offsets", "unreal_asset/src/asset.rs")], observe=["bytes of the written files"]),
P("A02", "Decrypting an encrypted AC7 asset restores it",
  "For every asset name and all file contents, decrypting what was encrypted under the same name gives the original bytes after the four-byte file tag, and the tag written is the encrypted tag when encrypting and the asset tag when decrypting. The key stream depends only on the name and the position, encryption works for every name and length, and files shorter than the tag do not crash it.",
  ["inputs"], "all names, all contents of both files", "one test decrypts one sample file",
  ["unreal_asset/src/ac7.rs"], [("xor key stream", "unreal_asset/src/ac7.rs")], observe=["encrypted and decrypted bytes"]),
P("R01", "An asset registry written and read back is the same registry",
  "For every registry version, a registry that was read writes exactly the bytes it was read from when they are in the form the writer produces, and a registry built or edited in memory reads back with the same assets, tags, dependency nodes, package data and names. Dependency nodes keep every reference list, in node order with hard references first, and each reference keeps its flags. Node numbers outside the registry are rejected.",
  ["inputs", "configurations"], "all registries and registry versions", "no test of this tree reads or writes a registry",
  ["unreal_asset/unreal_asset_registry/src/lib.rs", "unreal_asset/unreal_asset_registry/src/objects", "unreal_asset/unreal_asset_registry/src/name_table_reader.rs", "unreal_asset/unreal_asset_registry/src/name_table_writer.rs"],
  [("read/write pairs", "unreal_asset/unreal_asset_registry/src/objects")], observe=["bytes, values"]),
P("U01", "Type mappings files are decoded to the schemas they describe",
  "Reading a mappings file of any version and supported compression gives exactly the names, enums, schemas, properties and module paths it encodes, with array properties expanded to one entry per element (same name, increasing array index), and the version the file was written with. For files whose classes form no inheritance cycle, looking a property up through a class and its ancestors finds the nearest declaration of that name and array index and its position counted over the whole chain; a name that no class of the chain declares is looked up once more as the container that encloses it.",
  ["inputs", "configurations"], "all mappings files, all ancestries", "no test of this tree reads a mappings file",
  [B + "unversioned/mod.rs", B + "unversioned/properties/mod.rs", B + "unversioned/ancestry.rs", B + "unversioned/usmap_reader.rs"],
  [("mappings parser", B + "unversioned/mod.rs")], observe=["decoded mappings, lookups"]),
P("M01", "Mod metadata of every schema version loads with the same meaning",
  "Metadata of the current schema is loaded field for field and survives being saved and loaded again; metadata of the old schema, or without a schema number, is upgraded so that every field it had keeps its meaning and every field it lacked gets its documented default. Two metadata are equal exactly when all their fields are, and equal ones hash alike. Unknown schema numbers and malformed documents are rejected with an error, never a crash.",
  ["inputs"], "all metadata documents", "ten tests load small fixed documents",
  ["unreal_mod_metadata/src/lib.rs", "unreal_mod_metadata/src/v1.rs", "unreal_mod_metadata/src/v2.rs"],
  [("schema dispatch and upgrade", "unreal_mod_metadata/src/lib.rs")], observe=["loaded metadata"]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in L:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
