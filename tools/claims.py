PE_OUT = ["executables larger than a few KB, more than 4 sections, section layouts other than the 25 families listed in harness/h/pe.go",
          "sections whose raw data overlap, sections that do not start at a multiple of the file alignment, COFF symbol tables placed after .rsrc, directories placed before the first section",
          "bytes between the section table and the first section (replaced by zeros)"]
c("P01", ["P01_Object: 2 (quick) or 3 (thorough) resources, each under an arbitrary 16-bit ID or an arbitrary 1-letter ASCII name for type and name, arbitrary language, arbitrary bytes of length 0, 1 or 8; 4 architectures",
          "P01_AnyIdent: 1 resource, names of 1-2 arbitrary ASCII letters or of 1-4 byte UTF-8 sequences, data of 0..9 arbitrary bytes",
          "P01_Tree: 5 (7) resources sharing types and names; P01_Empty: the empty set; P01_Arch: any architecture string of 0..6 bytes"],
  ["more resources, longer names and data; more than 65535 relocations in one object"],
  "The object is parsed by an independent reader written from the PE/COFF specification, whose checks are the assertions.")
c("P02", ["25 section layouts x PE32/PE32+ x 3 old sizes x 4 new sizes, one resource under an arbitrary ID or 1-letter name, arbitrary language, first and last byte arbitrary",
          "trees of 5 resources, then load, delete, replace, write and load again",
          "alignments 512/4096, 512/512, 4096/4096, 1/1, 4/64 with data sizes at 0..2 units -88, -87, 0, +1 bytes"],
  PE_OUT, "Write then load, both executed symbolically.")
c("P05", ["25 section layouts x PE32/PE32+ x overlay of 0, 1 or 21 bytes x 3 old sizes x 3 new sizes; arbitrary first and last byte of every section and of the overlay, arbitrary header fields (timestamp, characteristics, entry point, image base, dll characteristics, loader flags, stub byte)",
           "P05_Geometry: three sections at any addresses (multiples of 64 from 1024 to 2560, in any order, with any gaps) with any virtual sizes of 1..200 or none, one of them uninitialised or not, resources and relocations in any of them, one file order (thorough: three)",
           "P05_OptionalHeader: 1..40 arbitrary bytes after the directories, with and without room for a section header",
           "P05_EmptySections, P06_EmptySections: any 32-bit file position of sections without data, 6 layouts x PE32/PE32+ x 2 new sizes"],
  PE_OUT, "Output compared to source by an independent reader.")
c("P06", ["the layouts of P05 with an arbitrary virtual size per section (1..room, at most 200) and directories pointing at an arbitrary offset of any section", "P06_Geometry: the arbitrary sections of P05_Geometry, one directory anywhere inside any of them", "header room of 0, 36, 40 or 44 bytes; extra bytes in the optional header"],
  PE_OUT, "Every header relation is an assertion over the output bytes.")
c("P07", ["any source checksum (32 bits), forced or not, overlay of 0..3 bytes, readers delivering everything or 1, 3 or 64 bytes at a time",
          "9-11 arbitrary bytes spread over a section, the resource data and an overlay of 6 or 7 bytes, next to words of 0xFFFF; irregular chunking"],
  PE_OUT + ["files of more than about 1 KB (the carry folding is uniform in length)"], "The stored sum equals an independent per-word fold of the exact output bytes.")
c("P08", ["25 layouts x PE32/PE32+: any certificate entry (32-bit position and size) for the query and the refusal",
          "a 16-byte signature right after the sections or 7 bytes later, at the end or followed by 5 bytes, removed or ignored, new size smaller or larger",
          "P08_Odd: certificate entries at 9 positions, inside of section data, at the end, after it and past 2 GB, the size being any 32-bit number or reaching the end of the file (modulo 4 GB)"],
  PE_OUT, "Refusal writes nothing; kept or dropped bytes compared exactly; the rest of P05 and P06 is asserted on the result.")
c("P09", ["P09_LoadAny: any file of 0..320 bytes (every byte arbitrary; the PE header at 4 positions, 7 optional header sizes, 0, 1, 2 or 65535 sections, raw data inside, absent or outside)",
          "P09_PatchAny: the same for files of 272 and 320 bytes with 5 alignment pairs (quick: 2 optional header sizes and section counts up to 2)",
          "P09_Directory: resource directories of 96 bytes where one of 3 tables has arbitrary counts and an arbitrary first entry; P09_DataEntry: any data entry, directory size and virtual size; P09_Directories: 0..16 directories present, any number of them announced, optional header longer or not",
          "no single allocation above 4 to 8 MiB"],
  ["section contents larger than the file are never read; many small tables sharing each other (amplification by nesting, at most cubic in the file size) are outside the claim", "files above 320 bytes"],
  "Any panic, endless loop or oversized allocation on any path is a violation.")
na("P29", "filtering quality of resized images is floating-point arithmetic over whole images, and 'looks like' has no formal oracle; P28 covers what is decidable (sizes, centring, pixels handed over)")
XML = "encoding/xml, encoding/json and text/template are executed from their source."
c("P22", ["P22_Flags: every combination of the switches at once (each a symbolic Boolean); P22_Options: every combination of OS, DPI awareness and execution level with symbolic switches; P22_Version: any 16-bit numbers",
          "P22_Text: name and description of any 0..2 (4) ASCII characters, control characters included; P22_Wide: 1..4 arbitrary bytes, valid UTF-8 or not"],
  ["longer texts (characters are escaped one by one)", "option values outside of the constants"], XML)
c("P23", ["switches, options (any 8-bit value of each), version numbers and texts as in P22",
          "P23_Word: every spelling of every option with one arbitrary character changed, added or removed; P23_Short, P23_Number: any option or version text of 0..4 (5, 6) characters; P23_Numbers: 1..5 numbers of several lengths", "P23_Shapes: documents with a wrong type anywhere, or cut anywhere"],
  ["longer documents"], XML)
c("P24", ["one element at a time with any text of 0..3 (4) characters, or a known word with one arbitrary character changed, added or removed, spaces around it or its case changed: switches, lists of up to 6 unknown DPI values before a known one, both DPI elements together, execution level, uiAccess, OS identifiers in any order, common controls, version",
          "P24_Bytes: any document of 0..4 (5) bytes, a manifest cut anywhere or with one arbitrary byte"],
  ["documents with several malformed places", "encodings other than UTF-8 (refused)"], XML + " The expected manifest comes from an independent reading of the text.")
c("P25", ["a failure at any operation of the reader, seeker or writer: the position is a symbolic integer; the failing operation may have been done partly or not at all, once or from then on",
          "writing objects, patching (plain, checksummed, signed, to a file), loading, saving and loading icons and cursors"],
  ["files that implement more than Read, Write, Seek and Size (os.File.Stat)"], "After an error everything else is free; without one the output must be complete and right.")
c("P26", ["25 layouts x PE32/PE32+; readers starting at a few concrete positions or anywhere (32-bit position), delivering everything, 1..5 bytes at a time, or arbitrary first pieces (nothing at all among them), the end told with or after the last piece, with or without a Size method; destinations: buffer, seekable file, plain writer"],
  ["os.File itself; icon and cursor files from another position than their start (their offsets are absolute)"], "Outputs are compared with each other.")
c("P27", ["P27_Reads: 1 (2) operations out of 8 kinds of reading, writing, failing or deleting nothing, then a change, then another operation, against a set left alone; arbitrary numeric key, 1-letter name, language and data",
          "P27_Twice: objects and executables of a tree of 5 resources, twice each in both orders, 25 layouts x PE32/PE32+; P27_Loaded: sources overwritten after loading",
          "P27_Icon, P27_Cursor: 1..3 arbitrary images, stored in two sets, images deleted, extracted and saved, sources overwritten",
          "P27_Built: icons and cursors made of 2 images of 7 types, stored three times, saved, source pixels overwritten",
          "P27_Version: 1 (3) of 6 ways of changing parts and copies, 2 strings in arbitrary languages; P27_JSON, P27_Manifest: documents overwritten"],
  ["the data given to Set and returned by Get and Walk belong to the set (documented for Set)", "concurrent use"], "Two sets built alike, one used more than the other, must behave the same.")
c("P28", ["P28_Limits: any 32-bit bounds; P28_ResizedLimits: any 64-bit size; P28_Many: 0..39 sizes",
          "P28_Icon, P28_Cursor: 7 types of image, 1..3 (5) pixels per side, 3 pixels with arbitrary colour and alpha, several origins, arbitrary hot spot; P28_List: 1..3 images; P28_Sizes: 15 (all 256) lengths, thin and square; P28_Largest: 255 or 256 pixels next to 1 or 32, in either order; P28_Resized: 10 shapes, 5 to 7 lists of sizes"],
  ["PNG compression and the resizing filter, which are replaced by models (package winresverif/model) with the same dimensions and errors; counterexamples are confirmed with the real ones", "images with more than 8 bits per colour"],
  "Pixels are read back by png.Decode (modelled) and by an independent reader of bitmaps; golang.org/x/image/bmp is executed from its source.")
c("P03", ["P03_History: 3 (4) operations out of set, delete, set empty, walk+count, get+walk type, each under an arbitrary numeric key (16-bit type, name, language)",
          "P03_Long: 2 resources, walked or not, then 3 (4) operations under keys of 2 types x 2 names x 2 languages (an arbitrary number and an arbitrary letter)",
          "P03_Refused: arbitrary 16-bit ID or any ASCII name of 0..3 bytes, NUL included, for type and name, setting or deleting; P03_Stop: 4 resources, stop at any point"],
  ["longer histories, longer names"],
  "The set and a plain list model run side by side; the model's answers are the assertions, after every history.")
c("P04", ["P04_Order: 3 resources under arbitrary distinct keys (IDs and 1-letter names mixed 4 ways; thorough: every mix), 3 insertion orders, an extra resource added, walked and removed at 3 points",
          "P04_MapOrder: 5 trees of 2 resources, every iteration order of every map used while walking or writing"],
  ["more resources, longer names"],
  "Two differently built sets must give equal bytes; canonical order itself is asserted by the strict walk order in P03 and the reader in P01.")
c("P10", ["P10_Types: 7 resources (icon and cursor images and groups, one arbitrary 16-bit or 1-letter type), 2 executable layouts, any 16-bit or 1-letter filter, 0 included",
          "P10_Some: any subset of 6 resources of the 4 image and group types, a version and a type named ICON, each as filter; P10_None: no resource directory"],
  ["more resources; executables other than the layouts named"], "Filtering compared with the list of what was written.")
c("P11", ["P11_Set: 2 (3) earlier operations out of raw icon image under any ID and language, named image, icon under an arbitrary identifier, icon in another language, image deleted, raw cursor image; then an icon of 2 arbitrary images under an arbitrary identifier",
          "P11_Get: two languages (arbitrary) of a group, missing languages, groups and images; P11_ImageLang: images under any language; P11_Loaded: a set loaded back; P11_Refused: invalid identifiers; P11_Listed: any size listed in the group"],
  ["icons of more images; the last image ID 65535 being used up (SetIcon is then refused though lower IDs may be free)"],
  "Groups are parsed by an independent reader and compared with the images given.")
c("P12", ["0..3 images with arbitrary dimensions, colour counts, planes, depths and bytes (3, 0 and 4 bytes long), laid out in order, in reverse with gaps, or sharing bytes"],
  ["more than 3 images (the sort is the library's stable sort), larger images"], "Saved bytes parsed by an independent ICO reader and compared.")
c("P13", ["P13_CUR and P13_Shared: 0..3 images with arbitrary dimensions, hot spots, planes, depths and bytes, three DIB header sizes, laid out in order, in reverse or sharing bytes",
          "P13_Set: 2 (3) earlier operations as in P11, then a cursor of 2 images, extracted, saved and stored elsewhere; P13_Get, P13_Refused, P13_Listed as in P11; P13_PNG: an image made of a PNG header (5 kinds, 4 sizes) and arbitrary bytes next to another"],
  ["more than 3 images, images longer than 19 bytes other than those of P13_PNG and P13_Many"],
  "Files and groups are parsed by independent readers and compared with the images given.")
c("P14", ["P14_ICO, P14_CUR: any file of 0..26 (40) bytes; P14_Entry: two images, one directory entry arbitrary; P14_Image: any cursor image of 0..18 (30) bytes; P14_PNG: images starting like a PNG (any byte changed, cut anywhere) or BMP",
          "P14_Group: any group of 0..20 (34) bytes with an image of 0..6 arbitrary bytes", "no single allocation above 11 MiB (files) or 1 MiB (groups); whatever is read is saved and stored again"],
  ["longer files; several entries sharing one large image (10 MB each)"], "Any panic, endless loop or oversized allocation on any path is a violation.")
c("P15", ["P15_Fixed: arbitrary versions, flags, type, 3 timestamps; P15_Lang: an arbitrary 16-bit language next to another; P15_Strings: keys of 1-3 and values of 0-4 ASCII characters; P15_Wide: characters of 2-4 bytes",
          "P15_Standard (and P17, P19, P20): the 12 standard keys in 2 languages (4 pairs, 3 distributions), arbitrary values of 0..2 letters",
          "P15_Many: 4 (5) strings in up to 3 languages, some set twice; P15_Refused: any ASCII key and value of 0..2 bytes, NUL included"],
  ["invalid UTF-8, strings beyond the format's 64 KB; all timestamps (P21)"], "FromBytes(Bytes(x)) compared with a plain model of x.")
c("P16", ["any bytes, 0..11 (15) of them; a structure of 4 nodes with one node's length, value length and type arbitrary and the end cut; 0..15 (18) arbitrary bytes in place of strings; arbitrary table name, fixed part, timestamp, key and value",
          "no single allocation above 1 MiB; whatever is read is written and read again"],
  ["several nodes malformed at the same time; longer inputs"], "Any panic, endless loop or oversized allocation on any path is a violation.")
c("P17", ["the structures of P15: arbitrary fixed part; arbitrary languages; keys of 1-3 and values of 0-4 characters, characters of 2-4 bytes; several strings and languages"],
  ["text above 64 KB, invalid UTF-8"], "An independent VS_VERSIONINFO reader, written from the Windows documentation, whose checks are the assertions.")
c("P18", ["arbitrary versions, flags, types and timestamps; arbitrary 16-bit languages; ASCII and multi-byte keys and values, any bytes that need escaping; documents cut anywhere, with a wrong type anywhere, with any language text of 1..5 characters; P18_FlagList: flags in 120 orders, 4 separators; P18_Used: unmarshalling over 4 other structures; P18_SameLang: a language spelled in two ways"],
  ["documents longer than those, numbers out of range in version strings (accepted leniently)"], "encoding/json is executed from its source.")
c("P19", ["3 (4) strings in the neutral, default, other and one arbitrary language, arbitrary 1-letter keys; parts with arbitrary languages for merging; every map iteration order for up to 3 languages; P19_MergeEmpty: every combination of absent, empty and filled tables in 3 languages"],
  ["more languages and strings"], "Compared with a plain model of the documented priority.")
c("P20", ["any ASCII string of 0..5 (8) characters and any bytes, 0..3 (4) of them; 1..6 numbers of 0-5 digits with 4 prefixes and 6 suffixes; 9 kinds of existing structures, with and without strings, an arbitrary language among them"],
  ["components above 65535 (their value is unspecified), longer strings"], "Compared with an independent reading of the string.")
c("P21", ["every instant from 1601-01-01 (plus one tick) to 2^63 ticks, in 4 time zones, written; every stored 63-bit value read; round trips in 7 eras of 2^32 s"],
  ["exactly 1601-01-01 (reads as the zero time)"], "Compared with integer arithmetic on FILETIME; wide divisions are decided by cvc5's integer translation, package time is executed from its source.")
for i, t in {
    "P01": "P01_Large: 2100 resources, 70 names of 507 characters or data of more than 1 MB: directories, names and data beyond 16 and 20 bits; P01_Big: data of 255 to 70001 bytes, names of 31 to 1000 characters, 260 types, resources, names or languages; arbitrary identifier, language, last byte and last character",
    "P02": "P02_Big, P02_Large: the sets of P01_Big and P01_Large written to executables, and loaded",
    "P04": "P04_Names: two names of 1..3 (4) arbitrary ASCII letters each, as types or resources",
    "P05": "P05_Big: alignments 512 and 4096, old resources of 5000 or 70000 bytes, new ones of 3000, 9000 or 70000, 80000 bytes of appended data; P05_Stub: DOS stubs of 0x40 to 0x10080 bytes",
    "P06": "P06_Big: the executables of P05_Big",
    "P07": "P07_Long: 135000 bytes of 0xFF or more before, in or after the resources, odd or even, the last two bytes being arbitrary",
    "P11": "P11_Many: icons of 13 or 50 (200) images, two of them of an arbitrary width, 260 images, images of 590 KB",
    "P12": "P12_Many: files of 13 or 50 (200) images, two of them of an arbitrary width, 260 images, images of 590 KB",
    "P13": "P13_Many: cursors of 13 or 50 (200) images, two of them of an arbitrary width, 260 images, images of 590 KB",
    "P15": "P15_Long: values and keys of 100 to 32000 characters, 260 strings, 100 languages; arbitrary language and last character",
    "P17": "P17_Long: the structures of P15_Long",
    "P18": "P18_Long: the structures of P15_Long, one string ending with an arbitrary character",
    "P19": "P19_Long: the structures of P15_Long",
    "P22": "P22_Long: names and descriptions of 255 to 5000 characters, ending with an arbitrary one",
    "P23": "P23_Long: names and descriptions of 255 to 5000 characters, ending with an arbitrary one"}.items():
    C[i][0].append(t) if isinstance(C[i], tuple) else C[i]["bounds"].append(t)
