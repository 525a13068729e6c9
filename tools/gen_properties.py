#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

R="oxyroot/src/"
prop("C01","Scalar and fixed-size array columns survive a write and a read exactly",
 "Writing a column of any supported fixed-width type (booleans, every integer width and sign, both float widths, and fixed-size arrays of them) to a tree and reading it back from the reopened file yields exactly the same values, bit for bit, in the same order and number. This holds for every number of entries, from none to enough to fill many on-disk buffers, and the tree and the branch both report that number.",
 ["inputs"],"every element type, array length, entry count (including counts at and around each buffer boundary) and value, including NaN payloads, infinities, signed zeros and integer extremes",
 "The tests write a few hand-picked counts of smooth values (0, 1, 1000...) of each type; they do not vary value patterns, array lengths or the count around buffer boundaries jointly.",
 [R+"rtree/tree/writer.rs",R+"rtree/branch/wbranch.rs",R+"rtree/wbasket.rs",R+"rtree/leaf.rs",R+"rbytes/mod.rs",R+"rbytes/wbuffer.rs",R+"rtree/branch/tbranch.rs",R+"rtree/streamer_type.rs"],
 [("write loop, basket fill and flush","WriterTree::write, WBranch::write/flush"),("element encode/decode","rbytes Marshaler/Unmarshaler impls"),("basket read back","Branch::as_iter, TBranch::get_baskets_buffer")],
 observe="RootFile::create/open, WriterTree::new_branch/write, Branch::as_iter/entries, ReaderTree::entries")
prop("C02","String and vector columns survive a write and a read exactly",
 "Writing a column of strings or of vectors of numbers and reading it back yields the same entries, element for element and byte for byte, in the same order and number. This holds for every mix of entry sizes: empty entries, entries around the 254/255-byte string length escape, entries larger than a whole on-disk buffer, and thousands of tiny entries sharing a buffer with a large one.",
 ["inputs"],"every sequence of entry sizes and contents (any valid UTF-8 text, any element values) and every element type accepted for vectors",
 "Tests write short, regularly growing entries; the offset table growth, the length escape and the oversized-entry paths depend on the joint history of sizes within one buffer.",
 [R+"rtree/wbasket.rs",R+"rtree/branch/wbranch.rs",R+"rbytes/wbuffer.rs",R+"rbytes/rbuffer.rs",R+"rtree/branch/tbranch_element.rs",R+"rtree/basket.rs"],
 [("per-entry offset table","WBasket::update, WBasket::write_to_file"),("string length escape","WBuffer::write_string, RBuffer::read_string"),("vector header and count","Marshaler/Unmarshaler for Vec")],
 observe="WriterTree::write then Branch::as_iter::<String> / ::<Vec<T>>")
prop("C03","Columns of one tree are stored independently of each other",
 "In a tree with several columns of any supported types and any (possibly different) lengths, each column reads back exactly as if it had been written alone, in any order of reading. The tree lists the columns in creation order under their given names with the advertised C++ type of each, every column reports its own length, and the tree reports the longest one.",
 ["inputs","programs"],"every sequence of columns (types, names, lengths, contents) including zero columns, duplicate types, columns exhausted at different times",
 "Tests use a handful of same-length columns; cross-talk (offsets, streamer reuse, reference tags, entry accounting) only shows for particular combinations and lengths.",
 [R+"rtree/tree/writer.rs",R+"rtree/branch/wbranch.rs",R+"rtree/leaf.rs",R+"rcont/objarray.rs",R+"rtree/tree/reader.rs"],
 [("round-robin write of all branches","WriterTree::write"),("tree/branch/leaf object graph with back references","WriterTree::marshal, WriterObjArray, WBuffer references"),("lookup","ReaderTree::branch/branches")],
 observe="ReaderTree::{entries,branches,branch}, Branch::{name,item_type_name,interpretation,entries,as_iter}")
prop("C04","A file gives back every tree written to it, the latest one for each name",
 "After any sequence of trees has been written to one file, the reopened file lists exactly the distinct names written, in order of first writing, and returns for each name the tree written last under it, with its own columns and contents intact. A tree whose name contains a slash is refused with an error. A tree can be written once: writing it again is refused with an error and leaves the file as it was.",
 ["histories","inputs"],"every sequence of tree writes with arbitrary (repeated or new, long or unusual) names and contents",
 "Existing tests write exactly one tree per file; cycle numbering, key replacement and multi-key directories are never exercised.",
 [R+"riofs/file.rs",R+"riofs/dir.rs",R+"riofs/key.rs"],
 [("cycle assignment and key registration","TDirectoryFile::put"),("keys list written and read","save_keys/read_keys"),("lookup by highest cycle","TDirectoryFile::get_object")],
 observe="RootFile::{keys_name,get_tree}, WriterTree::write result")
prop("C05","Writing consumes columns in lock step and follows the callback protocol",
 "While a tree is written, entry k of every column is requested once, in column order, after all entries k-1 and before any entry k+1, and writing goes on until every column has ended; every produced item is written. Each registered callback is told once at the start of every such round, then once just before each column is asked, with that column's name, in registration order for several callbacks.",
 ["histories","schedules"],"every set of columns with any lengths (also columns driven by a shared source), and any number of callbacks",
 "Tests never observe the interleaving of iterator pulls and callbacks; derived writers depend on it, and buffer flushes must not disturb it.",
 [R+"rtree/tree/writer.rs",R+"rtree/branch/wbranch.rs"],
 [("round loop","WriterTree::write"),("item pull","WBranch::write")],
 observe="side effects of the provided iterators and of WriterTree::add_callback callbacks")
prop("C06","Every byte of a written file belongs to exactly one well-formed record",
 "A closed file is a valid ROOT file at the record level: its header, and a chain of records that starts right after it and tiles the file up to the recorded end with no gap or overlap, each with consistent sizes, own position and parent directory. The header and directory point at the records holding the directory, the key list, the streamer list and the free list, and the key list and the tree's buffer tables name exactly the records present.",
 ["inputs","programs"],"every program that creates a file, writes any trees into it and closes it, checked by an independent parser of the format",
 "Tests only re-read through the same library (or need a ROOT installation that is skipped), so a layout mistake mirrored in reader and writer, or ignored by the reader, stays invisible.",
 [R+"riofs/file.rs",R+"riofs/dir.rs",R+"riofs/key.rs",R+"riofs/blocks.rs",R+"rtree/wbasket.rs"],
 [("header","RootFile::write_header"),("record allocation","Key::new*, FreeList"),("close sequence","RootFile::close, TDirectoryFile::close/save_keys")],
 observe="the bytes of the file")
prop("C07","A written file describes itself well enough for an independent ROOT reader",
 "An independent decoder that knows only the published ROOT format and the class descriptions stored in the written file can decode every tree in it: names, titles, entry counts, one leaf per branch with the right element type, length and signedness, and buffer tables with cumulative first-entry numbers. Decoding the buffers by that metadata yields exactly the values that were written, and every stored class has a class description.",
 ["inputs","programs"],"every tree content of supported types; decoder and encoder share no code with the library",
 "The tests that compare with ROOT itself need a ROOT binary and are not run; the library's own reader ignores most of the metadata, so wrong metadata does not fail a self round-trip.",
 [R+"rtree/tree/writer.rs",R+"rtree/branch/tbranch.rs",R+"rtree/branch/tbranch_element.rs",R+"rtree/leaf.rs",R+"rdict/mod.rs",R+"rdict/streamers/mod.rs",R+"rbytes/wbuffer.rs"],
 [("tree/branch/leaf metadata","Marshaler impls of WriterTree, TBranch, TBranchElement, Leaf*"),("class descriptions","RootFile::write_streamer_info, find_deep_streamer"),("object references and byte counts","WBuffer::write_object_any, set_header")],
 observe="the bytes of the file")
prop("C08","Compression of the stored records never changes what is read",
 "Reading a tree gives the same column list, types and values whether its records are stored raw or compressed with any supported algorithm (zlib, LZMA, LZ4) at any level, per record and in any mix. This includes records made of several compressed blocks and compressed metadata records.",
 ["inputs","configurations"],"every assignment of algorithm/level/block size to the records of files from an independent writer and of the repository's sample files re-encoded",
 "Tests read four sample files with one algorithm each, whose records all fit one compressed block.",
 [R+"rcompress.rs",R+"riofs/key.rs",R+"rtree/basket.rs"],
 [("block decompression","rcompress::decompress"),("compressed/raw decision","Key::bytes"),("basket load","Basket::raw_data")],
 observe="ReaderTree and Branch::as_iter on the same content stored differently")
prop("C09","The way entries are split into buffers never changes what is read",
 "Columns written by another ROOT implementation read back exactly, in order, no matter how their entries are distributed over on-disk buffers: one or many, evenly or not, empty ones among them, the last one embedded in the tree record or not, with or without spare table slots, and in whichever of its historical layouts the tree itself is recorded. This holds for fixed-size values, fixed arrays, variable-length arrays, strings and vectors.",
 ["inputs","configurations"],"every partition of any column into baskets, every placement of baskets in the file and table padding, produced by an independent writer",
 "The sample files contain a few fixed layouts; nothing varies partition boundaries against entry sizes.",
 [R+"rtree/branch/tbranch.rs",R+"rtree/branch/tbranch_element.rs",R+"rtree/basket.rs",R+"rtree/streamer_type.rs",R+"rusty/containers.rs"],
 [("basket enumeration and slicing into entries","TBranch::get_baskets_buffer"),("embedded baskets","Basket::unmarshal, TBranch unmarshal"),("entry chunking by leaf size or offsets","StreamerType/leaf size")],
 observe="Branch::as_iter")
prop("C10","Standard container columns decode to the value they encode",
 "A column of any supported standard container type (vector, set, map, string, and nestings of them) written in ROOT's layout is read as exactly the same container value, for every size including empty at every nesting level. Each entry is decoded independently of its neighbours.",
 ["inputs"],"every container type expression in the supported grammar and every value of it, serialised by an independent encoder",
 "The container tests read one sample file with 5 or so fixed entries per type.",
 [R+"rbytes/mod.rs",R+"rbytes/rbuffer.rs",R+"rusty/containers.rs",R+"rtree/branch/tbranch_element.rs"],
 [("container decoding with optional headers","Unmarshaler for Vec/HashSet/HashMap/String"),("header skipping","RBuffer::do_skip_header/set_skip_header")],
 observe="Branch::as_iter::<Vec<..>/HashSet<..>/HashMap<..>/String>")
prop("C11","A typed read is accepted only for the column's own type",
 "Asking to iterate a column as a type that does not correspond to its stored C++ type is refused with a type-mismatch error naming both types, and asking with the corresponding Rust type is accepted; values are never reinterpreted silently. The Rust type the library advertises for a column is the one that is accepted.",
 ["inputs","configurations"],"every pair (stored column type, requested Rust type) over scalars, arrays, strings, vectors and nested containers",
 "Tests request the right type nearly always; the full matrix of wrong requests and advertised names is not covered.",
 [R+"rtree/branch/mod.rs",R+"utils.rs",R+"rbytes/mod.rs",R+"rtree/branch/tbranch.rs",R+"rtree/branch/tbranch_element.rs"],
 [("type check","Branch::as_iter"),("type name mapping","utils::type_name_cpp_to_rust, Unmarshaler::classe_name, item_type_name")],
 observe="Branch::{as_iter,item_type_name,interpretation}")
prop("C12","Byte-buffer reads follow a simple cursor model and never run past the end",
 "For any bytes and any sequence of read, skip, rewind and seek operations on a read buffer, every value returned is the big-endian decoding of exactly the bytes under the cursor, the cursor advances by exactly the encoded size, and the reported position and remaining length agree. A read that needs more bytes than remain returns an error instead of panicking or inventing data.",
 ["inputs","histories"],"every byte string, base offset and operation sequence that keeps the cursor inside the buffer",
 "No test drives the buffer directly with operation histories; only well-formed data is read.",
 [R+"rbytes/rbuffer.rs",R+"rbytes/mod.rs"],
 [("cursor and extraction","RBuffer::read_*, Rbuff::extract_*"),("position arithmetic","RBuffer::pos/set_pos/len")],
 observe="RBuffer public methods")
prop("C13","A derived reader yields the row-wise zip of the named columns",
 "Iterating a tree as a derived struct yields, for row i, a struct whose every field equals entry i of the column its naming attributes designate (field name, rename, prefix, absolute name, nesting by dotted path), and exactly as many rows as the shortest designated column has. Slicable nested structs yield, per row, one element per index taken across the designated array columns.",
 ["programs","inputs"],"every struct shape, nesting depth and attribute combination accepted by the derive, over every tree content",
 "The tests compile about a dozen fixed structs; names resolved from combined attributes and nesting are a program-shaped input space.",
 ["oxyroot_derive/src/lib.rs",R+"rtree/tree/traits.rs",R+"rtree/tree/branch_name.rs"],
 [("generated branch lookup","write_func_for_readtotree, write_func_for_readtotree_sliced"),("naming","BranchName")],
 observe="generated programs using #[derive(ReadFromTree)] on trees written by the library")
prop("C14","A derived writer stores the same tree as column-by-column writing",
 "Writing any sequence of structs through the derived writer produces, for each field, a column named after it holding that field's value of every struct in order, exactly as if each column had been written on its own, and reading the file back through the derived reader returns the same structs. The number of entries equals the number of structs.",
 ["programs","inputs"],"every struct shape of supported field types (also nested derived structs) and every sequence of values, including none",
 "Tests write a few fixed structs; the per-field channels are fed by callbacks whose order relative to reads depends on field count and type.",
 ["oxyroot_derive/src/lib.rs",R+"rtree/tree/traits.rs",R+"rtree/tree/writer.rs"],
 [("generated channels and callbacks","write_func_for_writetotree"),("write loop","WriterTree::write")],
 observe="generated programs using #[derive(WriteToTree, ReadFromTree)]")
prop("C15","Composed branch names follow the dotted-path rules",
 "The name built for a nested field is the parent's name, a dot, and the field's own name with its prefix in front; a name made absolute ignores its parent and prefix; deriving a child never changes the parent. This holds for every chain of compositions.",
 ["programs","inputs"],"every sequence of naming operations and every name string",
 "One unit test covers seven fixed chains of depth at most two.",
 [R+"rtree/tree/branch_name.rs"],
 [("composition","BranchName::{make_child,with_prefix,with_name,make_absolute,final_name}")],
 observe="BranchName public methods")
prop("C16","Reading is repeatable and free of side effects",
 "Iterating a column any number of times, interleaved in any way with other iterators over the same or other columns, over the same tree fetched again or the file opened again, always yields the same sequence, and the file's bytes stay as they were. Once an iterator has ended it stays ended, and the checked, unchecked and buffer-level ways of reading agree. A tree with any number of columns can be read with all of its columns in progress at once, without an open file for each, and what is open keeps reading when the file is renamed, removed or replaced under its name.",
 ["histories","schedules"],"every interleaving of iterator creation, advancement and dropping over any set of columns of generated and sample files",
 "Tests consume each iterator once, from start to end, one at a time.",
 [R+"rtree/branch/mod.rs",R+"rtree/branch/tbranch.rs",R+"riofs/file.rs",R+"rtree/tree/reader.rs"],
 [("lazy basket iteration","Branch::as_iter, get_basket, TBranch::get_baskets_buffer"),("reader state","RootFileReader")],
 observe="Branch::{as_iter,as_iter_unchecked,get_basket}, RootFile::get_tree")
prop("C17","Branch listing, lookup and display agree with the stored hierarchy",
 "Listing a tree's branches recursively visits every stored branch once, parents before their children and siblings in stored order; looking up any listed top-level or nested name returns a branch of that name, and an unknown name returns nothing. The printed overview has one line per branch in that order with its name, C++ type and Rust type.",
 ["inputs","configurations"],"every branch hierarchy (depth, fan-out, names, empty or dotted names) and every lookup",
 "Tests look up known names in a few sample files; hierarchies are whatever the samples contain.",
 [R+"rtree/tree/reader.rs",R+"rtree/branch/mod.rs",R+"rtree/branch/tbranch.rs"],
 [("traversal","ReaderTree::{branches,branches_r,branch,show}, Branch::{branches,branches_r,branch}")],
 observe="ReaderTree/Branch listing API, oxyroot-ls output")
prop("C18","The command-line tools print exactly what the file holds",
 "The listing tool prints every key with its class and title and every branch with its type, and the dump tool prints every entry of every readable branch once, in entry order, with the value the file holds. Both exit successfully on a valid file and with an error status on a missing one.",
 ["inputs"],"every file produced by the library or the independent writer, run through the built binaries",
 "No test runs the binaries.",
 ["oxyroot-ls/src/main.rs","oxyroot-dump/src/main.rs",R+"rtree/tree/reader.rs"],
 [("listing","oxyroot-ls main"),("dump dispatch by advertised type","ZipperDumperItem::new, ZiperDumperBranch::dump")],
 observe="stdout and exit status of oxyroot-ls and oxyroot-dump")
prop("C19","Unusable inputs are reported as errors, not accepted or crashed on",
 "Opening a path that is absent, not a ROOT file, cut off inside its header or its directory, or never closed by its writer, asking for a tree that does not exist or a key that is not a tree's, and using a file in the wrong mode (writing to one opened for reading, reading from one opened for writing) each return an error. None of them panics, and the file on disk and the opened file remain usable for valid requests.",
 ["fault_sequences","inputs"],"every non-ROOT byte string, every truncation point within the leading metadata, every value of a field of the header or directory, every absent name, and every wrong-mode operation at every point of a history",
 "Tests check no failing open or lookup at all, or one or two.",
 [R+"riofs/file.rs",R+"riofs/dir.rs",R+"riofs/error.rs",R+"rtree/tree/reader.rs"],
 [("header validation","RootFile::open, read_header"),("directory validation","TDirectoryFile::read_dir_info"),("mode checks","RootFile inner enum accessors")],
 observe="Result of RootFile::{open,create,get_tree}, WriterTree::write, keys")
prop("C20","A closed file is complete on disk and stays readable until replaced",
 "When closing a file has returned success, the file on disk is complete: another reader opening it at that moment, even while the writer's handle is still alive, sees every tree. Creating a file over an existing one replaces its contents entirely, whatever the old contents and length were. If the storage refuses some of the bytes, one of the calls returns an error; success is never reported for an incomplete file, and none of the calls panics. That includes closing again after a failed close, and writing a refused tree to another file.",
 ["crash_points","histories","fault_sequences"],"every program of creates, writes and closes over one path, observed right after each close and at each re-creation, and every size at which the storage stops accepting bytes",
 "Tests drop the handle before reading or read sequentially within one scope; leftovers of longer older files are never present.",
 [R+"riofs/file.rs"],
 [("buffered writer flush","RootFile::close, RootFileWriter"),("create truncates","RootFile::create")],
 observe="file bytes and RootFile::open at the moment close returns")
prop("C21","Large files with 64-bit positions read and write like small ones",
 "Records located beyond the 2 GB mark, which use wide positions in keys, directories and buffer tables, are read exactly like records at small positions, and trees whose data crosses that mark while being written read back exactly.",
 ["inputs","configurations"],"every placement of tree, key-list and buffer records below or above the 32-bit limit (sparse files from an independent writer), and generated columns crossing the limit when written",
 "The tests never produce or read a file above a few megabytes.",
 [R+"riofs/key.rs",R+"riofs/dir.rs",R+"riofs/file.rs",R+"rtree/wbasket.rs",R+"rtree/branch/tbranch.rs"],
 [("wide keys","Key marshal/unmarshal rvers>1000"),("wide headers","RootFile read_header/write_header"),("basket adjust","WBasket::write_to_file")],
 observe="RootFile::open, Branch::as_iter on sparse multi-gigabyte files")
prop("C22","User information attached to a tree is returned as stored",
 "A tree stored with a list of user objects (strings, maps from strings to such objects, and lists of these nested in each other) returns that list with the same name, length and order. Every object in it gives back exactly what was stored: a string its text, a map its name and the value of each key, a nested list its entries. What else a tree carries (aliases, friends, an index, branch references) changes neither this nor its columns.",
 ["inputs"],"every list of supported user objects with any contents, from an independent writer",
 "One test reads one sample file with a single map.",
 [R+"rtree/tree/reader.rs",R+"rcont/list.rs",R+"rcont/tmap.rs",R+"rbase"],
 [("list and map decoding","ReaderList/TMap unmarshal"),("object factory","rtypes::FactoryItemRead")],
 observe="ReaderTree::user_info, ReaderList::at, TMap::get")
prop("C23","Writing the same content again produces the same file",
 "Writing the same trees with the same columns and values to the same path, in the same process or another one, produces byte-identical files. Column contents therefore determine the file completely.",
 ["programs","histories"],"every tree content, repeated within one process and across processes",
 "No test compares files; the class-description lookup goes through hash maps whose order differs per process.",
 [R+"rdict/streamers/db.rs",R+"rdict/mod.rs",R+"riofs/file.rs",R+"rbytes/wbuffer.rs"],
 [("description lookup","rdict::streamers::db"),("object reference tags","WBuffer references by address"),("timestamps and UUIDs","riofs utils")],
 observe="file bytes across runs")
prop("C24","Damage inside compressed data never turns into other values",
 "When bytes of a compressed record have been altered (a tree's, the class descriptions' or a buffer's; in the block headers, sizes, checksums or data), reading never yields anything but what was stored. Opening the file or fetching the tree returns an error without a panic, and iterating a column fails at the damaged buffer, having yielded only stored values; columns without damage still read in full.",
 ["fault_sequences","inputs"],"every alteration of the bytes of any compressed record of every file: each method, header field, checksum and data byte",
 "No test reads a damaged file.",
 [R+"rcompress.rs",R+"riofs/key.rs",R+"rtree/basket.rs"],
 [("block headers and checksums","rcompress::decompress"),("record decompression","Key::bytes")],
 observe="RootFile::open, RootFile::get_tree, Branch::as_iter on a file with altered bytes")
prop("C25","Versions of a name are told apart by their number",
 "A file may hold several trees under one name, each with its own number (cycle). Asking for the name returns the tree with the highest number, whatever the order in the file, and name;number returns exactly that version, also when the tree's own name differs from the key's. A number no version has, text that is no number, and a name not in the file give an error without a panic. Trees the library writes under one name are numbered 1, 2, 3, ... in the order written, and all remain readable.",
 ["inputs","histories"],"every set of names and version numbers 1 to 32767 in any order of keys, and every history of writes under repeated names",
 "The tests ask for trees by plain names in files with one version each.",
 [R+"riofs/dir.rs",R+"riofs/utils.rs",R+"riofs/key.rs",R+"riofs/file.rs"],
 [("name;cycle parsing","utils::decode_name_cycle"),("choice among keys","TDirectoryFile::get_object"),("numbering of writes","RootFile::put")],
 observe="RootFile::get_tree, RootFile::keys_name")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    print(json.dumps(p,ensure_ascii=False))
