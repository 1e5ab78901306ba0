#!/usr/bin/env python3
"""Writes properties.jsonl. Edit the table here, then run: python3 tools/mkprops.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("P01", "A written object file is a valid COFF object holding exactly the set",
  "For any resource set and any supported architecture, the object file written for it is a well-formed COFF object: one resource section, one symbol, all offsets and sizes inside the file and non-overlapping, and exactly one image-relative relocation of the right type on the address of every data entry. Read back by the PE/COFF rules, its resource directory lists exactly the resources of the set with their identifiers, languages and bytes. An unknown architecture is refused without writing anything.",
  ["inputs", "configurations"], "every set of resources (identifiers, names, languages, data lengths and bytes) and every architecture",
  "Tests write a few fixed sets and compare with recorded bytes; offsets, padding and name table interact with every combination of counts, name lengths and data lengths.",
  ["coff.go", "rsrc.go", "winres.go"],
  [("object layout", "coff.go writeObject"), ("relocations", "coff.go writeRelocTable"), ("directory layout", "rsrc.go ResourceSet.write / prepare"), ("padding", "rsrc.go alignData, dataEntry")],
  ["bytes written by WriteObject"])
p("P02", "Resources written into an executable are read back unchanged",
  "When a resource set is written into a PE executable that WriteToEXE accepts (32 or 64 bit, with or without existing resources, whatever the section layout), loading the resulting file yields exactly the same set: same types, identifiers, languages and bytes, nothing more and nothing less. Loading a file that has no resource directory yields an empty set and the documented no-resources error.",
  ["inputs", "configurations"], "every resource set and every accepted executable layout",
  "The tests that touch executables need sample files that are not in the repository; each layout, size change and identifier mix is a separate case of the address arithmetic.",
  ["exe.go", "rsrc.go", "winres.go"],
  [("address relocation", "exe.go applyReloc"), ("section lookup", "exe.go extractRSRCSection"), ("directory reader", "rsrc.go ResourceSet.read, readDirTable, readName, readData")],
  ["LoadFromEXE on the output of WriteToEXE"])
p("P03", "A resource set behaves as a map under any history of operations",
  "After any sequence of additions, replacements and deletions, looking up, counting and walking a resource set (all of it or one type) agree with a plain map from (type, name, language) to bytes; deleting (setting nil) something absent changes nothing. Zero IDs, empty names and names containing NUL are refused with an error and leave the set as it was. Stopping a walk early stops it at once.",
  ["histories", "inputs"], "every sequence of Set/Get/Count/Walk/WalkType/WriteObject calls with arbitrary arguments",
  "Cached orders inside the set are invalidated per operation; only particular interleavings of walks and modifications expose a stale cache, and tests run a handful.",
  ["winres.go", "rsrc.go", "id.go"],
  [("cache invalidation", "winres.go set, delete"), ("ordering caches", "rsrc.go typeEntry.order, resourceEntry.order"), ("identifier checks", "id.go checkIdentifier")],
  ["Get, Count, Walk, WalkType results"],
  [("orderedKeys", "cached sorted keys, nil when stale", "rsrc.go typeEntry, resourceEntry")])
p("P04", "Output order is canonical and independent of how the set was built",
  "Resource types and resources are always walked and written with names first in case-sensitive ascending order, then IDs in ascending order, and languages in ascending order. Two sets with the same content produce identical object files whatever order the resources were added in, whatever was added and removed meanwhile, and whatever order Go iterates maps.",
  ["inputs", "histories", "schedules"], "every pair of building histories with the same final content, every map iteration order",
  "Map iteration order is random: a test may pass many times while another order fails; and the set of insertion histories is unbounded.",
  ["rsrc.go", "winres.go", "id.go"],
  [("total order of identifiers", "id.go lessThan"), ("sorting", "rsrc.go order"), ("name table order", "rsrc.go prepare")],
  ["Walk order, WriteObject bytes"])
p("P05", "Patching an executable preserves everything but the resources",
  "WriteToEXE keeps the DOS stub, every header field it has no reason to update, the contents of every other section, and any data appended after the sections, byte for byte. Sections after the resource section may only move by a whole number of alignment units, with raw and virtual positions updated to match; nothing is lost, duplicated or overwritten.",
  ["inputs", "configurations"], "every executable layout it accepts (resource section absent, last, followed by relocations, in the middle, growing or shrinking) and every resource size",
  "Tests need sample executables that are absent; each layout case uses different copy ranges.",
  ["exe.go"],
  [("copy ranges", "exe.go writeEXE"), ("section shifting", "exe.go updateHeaders"), ("keep-in-place rule", "exe.go requiresNewSection")],
  ["bytes written by WriteToEXE compared to the source"])
p("P06", "A patched executable's headers are consistent",
  "In the output of WriteToEXE, sections are aligned, do not overlap in the file or in memory, and lie inside the file and inside the declared image size; the resource directory entry points to the resource section with the right size; data directories and the relocation directory follow the sections they were in; the declared size of initialised data changes by the growth of the resource section; and the section count matches the section table. A file whose header has no room for a needed section header is refused rather than corrupted.",
  ["inputs", "configurations"], "every accepted executable layout, alignment and resource size",
  "Header arithmetic depends on sizes and alignments jointly; tests compare a few recorded files that are absent.",
  ["exe.go"],
  [("header update", "exe.go updateHeaders"), ("section info", "exe.go fillSectionsInfo"), ("room check", "exe.go preparePEWriter")],
  ["headers of the file written by WriteToEXE"])
p("P07", "The PE checksum is right whenever one is written",
  "If the source had a non-zero checksum or an update was forced, the checksum stored in the output is the PE checksum of the exact bytes written; otherwise the field is zero. This holds for any content, odd file sizes, and any way the source reader splits its data.",
  ["inputs", "schedules"], "every file content and length parity, every chunking of reads and writes",
  "The end-around-carry sum has rare carry and odd-boundary cases; chunk boundaries depend on the reader.",
  ["pesum.go", "exe.go"],
  [("checksum", "pesum.go peCheckSum"), ("policy", "exe.go replaceRSRCSection")],
  ["CheckSum field of the output"])
p("P08", "Signed executables are never modified unless asked to",
  "With default options WriteToEXE refuses any executable with an Authenticode signature and writes nothing; asked to remove the signature it clears the certificate entry and drops the signature when it is at the end of the file; asked to ignore it, it keeps the signature bytes and points the entry at where they end up. The signed-file query reports exactly whether the default would refuse, without disturbing the reader's position.",
  ["inputs", "configurations"], "every certificate entry (address, size), every option combination, every executable layout",
  "There are no signed samples in the repository; tests that used them cannot run.",
  ["exe.go", "winres.go"],
  [("signature handling", "exe.go preparePEWriter, updateHeaders"), ("query", "winres.go IsSignedEXE")],
  ["error, output bytes, reader position"])
p("P09", "Loading resources from any bytes never crashes, hangs or over-allocates",
  "Loading resources from, patching, or querying any byte sequence, however malformed, ends with a result or an error: no panic, no endless loop, and no allocation out of proportion to the size of the input. A directory entry or data that lies outside the resource section is reported as an error, never dropped.",
  ["inputs"], "every byte sequence as executable (headers, section table and resource directory arbitrary)",
  "The space of malformed headers is astronomically large and tests try a few truncations.",
  ["exe.go", "rsrc.go", "winres.go", "reader.go"],
  [("header checks", "exe.go readPEHeaders, extractRSRCSection, preparePEWriter"), ("directory checks", "rsrc.go readDirTable, readData, readName")],
  ["return or panic"])
p("P10", "Loading a single type is a filter of loading everything",
  "Loading only one resource type gives exactly the resources of that type found by loading everything (for icon and cursor groups, along with the images they need), and nothing else. A zero type is refused.",
  ["inputs"], "every executable and every type identifier",
  "Tests cover one or two types on sample files.",
  ["winres.go", "rsrc.go"],
  [("filter", "rsrc.go ResourceSet.read"), ("entry check", "winres.go LoadFromEXESingleType")],
  ["LoadFromEXESingleType versus LoadFromEXE"])
p("P11", "Setting icons keeps groups, images and other icons intact",
  "After setting an icon, the stored group lists each image with dimensions, size and identifier matching an image resource with exactly that image's bytes, and every icon or image stored before, by any means and in any order, is still there unchanged. Extracting an icon group gives back an icon with the same images; a missing group or image is reported as an error.",
  ["histories", "inputs"], "every sequence of icon insertions and raw resource insertions with arbitrary identifiers, every image content",
  "Image identifiers are allocated from hidden counters; only some histories (raw images with high identifiers, loaded sets, replaced groups) can collide.",
  ["icon.go", "winres.go"],
  [("image allocation", "icon.go SetIconTranslation, winres.go set"), ("extraction", "icon.go GetIconTranslation")],
  ["GetIcon/Get results after SetIcon"],
  [("lastIconID", "highest image identifier in use", "winres.go ResourceSet")])
p("P12", "ICO files round-trip",
  "Any ICO file that is accepted on loading, once saved, is a valid ICO file with the same set of images: same dimensions, colour depth and bytes, offsets in bounds and not overlapping. Images are ordered so that Windows picks the best one: deeper first, and larger first at the same depth.",
  ["inputs"], "every ICO file (number, order, sizes and contents of images)",
  "Tests load sample files that are absent; entry order, overlaps and odd sizes are not sampled.",
  ["icon.go"],
  [("loader", "icon.go LoadICO"), ("writer", "icon.go SaveICO"), ("ordering", "icon.go order")],
  ["bytes written by SaveICO"])
p("P13", "CUR files and cursors round-trip with their hot spots",
  "Any CUR file that is accepted on loading keeps, through saving and through storing in and extracting from a resource set, the same images with the same hot spots, dimensions and bytes. Stored cursor groups list sizes that match the stored images, and storing a cursor never disturbs other cursors.",
  ["inputs", "histories"], "every CUR file and every sequence of cursor insertions",
  "Same as icons, and hot spots are moved between three formats; tests use sample files that are absent.",
  ["cursor.go", "winres.go"],
  [("loader", "cursor.go LoadCUR"), ("writer", "cursor.go SaveCUR"), ("group", "cursor.go SetCursorTranslation, GetCursorTranslation")],
  ["SaveCUR bytes, stored resources"])
p("P14", "Icon and cursor readers survive any bytes",
  "Loading an icon or cursor from any byte sequence, or extracting one from any resource set whatever its group and image resources contain, ends with a result or an error: no panic, no endless loop, and no single allocation beyond the documented limit of 10 MB per image.",
  ["inputs"], "every byte sequence as ICO/CUR file and as group/image resources",
  "Malformed headers and short images are countless; tests try few.",
  ["icon.go", "cursor.go"],
  [("bounds checks", "icon.go LoadICO, GetIconTranslation; cursor.go LoadCUR, GetCursorTranslation, readDIBBitCount")],
  ["return or panic"])
p("P15", "Version information round-trips through its binary form",
  "Serialising version information and reading it back gives the same file and product versions, flags, type, timestamp and, for every language, the same keys and values, for any languages, keys and values accepted by the API that are valid text and fit the format's 64 KB limit. A language without any string is not kept.",
  ["inputs"], "every version structure: numbers, flags, timestamps, languages, keys and values",
  "Padding depends on every key and value length; tests use a few fixed structures.",
  ["version/binary.go", "version/version.go", "version/timestamp.go"],
  [("writer", "version/binary.go Bytes, nodeBytes"), ("reader", "version/binary.go FromBytes")],
  ["FromBytes(Bytes(x))"])
p("P16", "Reading version information from any bytes never crashes",
  "Reading version information from any byte sequence ends with a result or an error, without panic, endless loop or disproportionate allocation, and whatever is read can be serialised again.",
  ["inputs"], "every byte sequence",
  "Nested lengths and alignments leave many malformed shapes that tests do not sample.",
  ["version/binary.go"],
  [("bounds checks", "version/binary.go FromBytes and helpers")],
  ["return or panic"])
p("P17", "Serialised version information is a valid VERSIONINFO structure",
  "The bytes produced are a well-formed VS_VERSIONINFO: every node's length and value length match its content, children are 32-bit aligned and inside their parent, strings are NUL-terminated UTF-16, each language has one string table named after its code with the Unicode code page, and the list of translations names exactly these languages. Text is valid UTF-8 and fits the format's 64 KB limit.",
  ["inputs"], "every version structure accepted by the API",
  "The reader shares assumptions with the writer, so a round-trip alone cannot show conformance; tests compare a few recorded blobs.",
  ["version/binary.go", "version/version.go"],
  [("node layout", "version/binary.go nodeBytes"), ("string tables", "version/binary.go Bytes")],
  ["bytes returned by Bytes, read by an independent parser"])
p("P18", "Version information round-trips through JSON",
  "Marshalling version information to JSON and unmarshalling it gives an equal structure (versions, flags, type, timestamp, tables). Documents that are not JSON of the documented shape (types, 16-bit hexadecimal language codes, non-empty keys, no NUL, each language once) are refused with an error, and no accepted document crashes later operations. Flags and types are recognised in any order and letter case, and nothing remains of a structure that is unmarshalled into.",
  ["inputs"], "every version structure, and every document of the expected shape",
  "Tests use a few fixed documents.",
  ["version/json.go", "version/version.go"],
  [("encoding", "version/json.go MarshalJSON"), ("decoding", "version/json.go UnmarshalJSON")],
  ["UnmarshalJSON(MarshalJSON(x))"])
p("P19", "Splitting and merging translations loses nothing",
  "Splitting version information by language gives one complete structure per language, whose strings are those of that language, gaps being filled from the neutral language, then the default language, then the lowest one. Merging the parts gives back, per language, the strings of the parts, and the fixed part by the same documented priority. Storing version information in a resource set stores one readable structure per language.",
  ["inputs"], "every set of languages, keys and values",
  "Interaction of neutral, default and other languages has many cases; tests use few.",
  ["version/version.go", "winres.go"],
  [("split", "version/version.go SplitTranslations, splitLangs"), ("merge", "version/version.go MergeTranslations"), ("store", "winres.go SetVersionInfo")],
  ["results of SplitTranslations, MergeTranslations, Get"])
p("P20", "Setting a version string updates the numbers and every textual copy",
  "Setting the file or product version from any string stores the leading numeric components (up to 65535 each) as the fixed version and leaves the string itself as the only textual version in the structure; other fields are unaffected, and no string without NUL makes it fail.",
  ["inputs"], "every string and every existing structure",
  "Parsing of separators, overflow and suffixes has many corner cases.",
  ["version/version.go"],
  [("setter", "version/version.go SetFileVersion, SetProductVersion")],
  ["fields and tables after the call"])
p("P21", "Timestamps survive with 100 ns precision",
  "A timestamp within the representable range (after 1601-01-01, below 2^63 ticks of 100 ns), in any time zone, is stored in version information and read back as the same instant to 100 nanoseconds; the zero time stays zero.",
  ["inputs"], "every instant representable in the file-time range",
  "Epoch shifting and 32/64-bit splitting have rare carries and wraps that fixed dates do not reach.",
  ["version/timestamp.go", "version/binary.go"],
  [("conversion", "version/timestamp.go"), ("split words", "version/binary.go")],
  ["Timestamp after FromBytes(Bytes(x))"])
p("P22", "Application manifests round-trip through XML",
  "Any application manifest stored in a resource set yields well-formed XML which, read back, gives the same manifest, whatever combination of options and whatever text is in the name and description. Only characters that XML cannot represent are replaced (with U+FFFD), and the version of an unnamed assembly is not kept.",
  ["inputs", "configurations"], "every combination of manifest options, versions and text",
  "Options interact in the template and text needs escaping; tests compare recorded documents for a few combinations.",
  ["manifest.go"],
  [("template", "manifest.go makeManifest"), ("reader", "manifest.go AppManifestFromXML")],
  ["AppManifestFromXML(Get(RT_MANIFEST))"])
p("P23", "Application manifests round-trip through JSON",
  "Marshalling a manifest to JSON and unmarshalling it gives an equal manifest; unknown option values, malformed version numbers and documents of another shape are refused with an error. The version of an unnamed assembly is not kept.",
  ["inputs", "configurations"], "every manifest, every option text",
  "Every option value and version number is a separate case; tests sample a few.",
  ["manifest.go"],
  [("text forms", "manifest.go MarshalText, UnmarshalText, MarshalJSON, UnmarshalJSON")],
  ["json.Unmarshal(json.Marshal(x))"])
p("P24", "Any manifest XML is read tolerantly",
  "Reading a manifest from XML only fails on documents that are not well-formed UTF-8 XML. Unknown or invalid values are ignored, leaving the default of that option (or zero, for one number of a version) and nothing else changed; an unknown OS counts as one newer than those known. Options are recognised whatever the letter case of their values and the spaces around them.",
  ["inputs"], "every text in option elements, every byte sequence as document",
  "Values are free text and tests sample a few.",
  ["manifest.go"],
  [("reader", "manifest.go AppManifestFromXML")],
  ["AppManifestFromXML results"])
p("P25", "I/O failures are always reported",
  "If any write, read or seek fails at any point while writing an object, patching or loading an executable, or loading or saving icons and cursors, the call returns an error, unless the output was completed all the same (a destination that cannot seek is filled with zeros instead); success is only reported when everything was read and written completely.",
  ["fault_sequences", "inputs"], "every failure point of the reader, seeker or writer",
  "Tests inject a few failure points; each error return in the code is a separate case.",
  ["coff.go", "rsrc.go", "exe.go", "icon.go", "cursor.go", "reader.go"],
  [("error propagation", "all writers and readers")],
  ["returned error at every fault point"])
p("P26", "Output does not depend on the kind of reader or writer",
  "Patching an executable produces the same bytes whether the (empty) destination is a plain writer or can also seek, and whether the source delivers data all at once or in small pieces; loading an executable, an icon or a cursor gives the same result for any such source, and executables are read from their start wherever the reader was positioned at first.",
  ["schedules", "configurations"], "every chunking of reads, every initial position, seekable and plain destinations",
  "Tests use in-memory buffers and files only, with one chunking.",
  ["exe.go", "reader.go", "winres.go"],
  [("blank skipping", "exe.go writeBlank"), ("full reads", "reader.go readFull, binaryRead"), ("file size", "exe.go getSeekerSize")],
  ["destination bytes"])
p("P27", "Writing and reading have no side effects on the set",
  "Writing, walking, counting, querying or extracting from a resource set, or serialising and copying version information, never changes what later operations return; writing twice gives identical bytes. Tables returned by version information, its serialised forms, and the documents and files that anything was read from may be modified freely afterwards.",
  ["histories", "inputs"], "every sequence of read-only operations",
  "Caches, shared slices and in-place relocation could leak between calls only for particular sequences.",
  ["winres.go", "rsrc.go", "exe.go", "icon.go", "cursor.go", "version/version.go"],
  [("buffer ownership", "winres.go bytes, exe.go applyReloc"), ("copies", "version/version.go Table")],
  ["results before and after"])
p("P28", "Images are converted within limits and at the right size",
  "Building an icon or cursor from images accepts exactly images of 1 to 256 pixels per side, and stores every image, larger first, with its real dimensions and depth and its pixels unchanged (opaque or not, whatever the type of the image), on a transparent square when it is not square: in the middle for icons, in the top left corner for cursors. Resizing makes one square image for each size requested, the resized source in the middle; sizes out of 1 to 256 and more than 30 sizes are refused.",
  ["inputs"], "every image size, type and pixel, every list of sizes",
  "Tests use a few images; the size limits and the centring arithmetic have boundary cases.",
  ["icon.go", "cursor.go"],
  [("constructors", "icon.go NewIconFromImages, NewIconFromResizedImage, imageInSquareNRGBA"), ("cursor images", "cursor.go NewCursorFromImages")],
  ["stored group and image data"])
p("P29", "Resized icons look like their source",
  "Icons made by resizing an image show that image at each requested size with good filtering quality.",
  ["inputs"], "every image and size",
  "Quality is perceptual and computed in floating point by a third-party package.",
  ["icon.go"], [("resizing", "icon.go resizeImage")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
