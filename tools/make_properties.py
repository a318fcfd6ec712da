#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for its text is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

# ---------------------------------------------------------------- saving a document
p("D01", "Applying a diff reproduces the document it was computed from",
  "For any document and any document derived from it by copying and editing (setting parameters, changing references and alternatives, inserting, removing and reordering list items at any nesting depth), applying the computed diff to a copy of the first yields a document in exactly the state of the second: same values, null and undefined states, references, list items with their IDs in the same order, and the same next ID for future items. This also holds for a chain of diffs applied one after another, including onto a document freshly rebuilt from its source.",
  ["inputs", "histories", "programs"], "every source definition, every editing history between the two states, every split of that history into a chain of diffs",
  "The repository's tests diff a handful of hand-written edits on one schema; member layouts (few/many members, high member numbers, nested lists) and edit mixes are never varied.",
  ["dochy_diff/src/imp", "dochy_core/src/imp/structs"],
  [("get_diff", "dochy_diff/src/imp/get_diff.rs"), ("apply_diff", "dochy_diff/src/imp/apply_diff.rs"), ("list diff", "dochy_diff/src/imp/prepare/get_mlist_diff.rs")],
  "dochy_diff::get_diff / apply_diff, document observed through dochy_core::intf")
p("D02", "A diff contains only what changed",
  "The diff between a document and an identical copy is empty (a fixed few bytes), and the diff between a document and an edited copy carries nothing for the list items, lists and parameters that the edits did not touch (an item that was moved, or whose alternative was changed, may be written anew). The size of a diff therefore depends on the edits and not on how much unchanged data the document holds.",
  ["inputs", "histories"], "every document size and every set of edits",
  "Tests only look at the final state after loading; a diff that rewrites the whole document still restores it.",
  ["dochy_diff/src/imp/prepare", "dochy_core/src/imp/structs/util/identity_equal_trait.rs"],
  [("identity comparison", "dochy_diff/src/imp/prepare/compare_items.rs"), ("get_mlist_diff", "dochy_diff/src/imp/prepare/get_mlist_diff.rs"), ("get_root_diff", "dochy_diff/src/imp/prepare/get_root_diff.rs")],
  "bytes returned by dochy_diff::get_diff")
p("D03", "Documents with different contents never compare equal",
  "Comparing two documents of one source says they are equal only if every parameter, reference, list, item and order of items is the same in both, at any depth, whichever of the two is asked. A document and an unedited copy of it compare equal, also after edits elsewhere.",
  ["inputs", "histories"], "every pair of documents reached from one source by different edits, and every copy",
  "Tests compare documents that are equal, or differ in one number.",
  ["dochy_core/src/imp/structs/util/identity_equal_trait.rs", "dochy_core/src/imp/structs/root_obj.rs", "dochy_core/src/imp/structs/rust_list.rs"],
  [("identity comparison", "dochy_core/src/imp/structs/util/identity_equal_trait.rs"), ("contents_eq", "dochy_core/src/imp/structs/root_obj.rs")],
  "dochy_core::structs::RootObject::contents_eq")
p("F01", "A saved Dochy file loads back as exactly the document that was saved",
  "Whatever the document's state, saving it under a file name and loading that file yields the saved state, no matter how many other files were saved, overwritten or removed in the same directory in between and whether it is loaded by the same process or by a later one. Saving without permission to overwrite fails and leaves the existing file as it was, and a file whose name is reserved for bookkeeping can be neither saved nor removed.",
  ["inputs", "histories", "configurations"], "every source definition, document state and sequence of save, overwrite, load, list and remove operations",
  "The existing test saves and loads two documents of one fixed schema.",
  ["dochy_fs/src/imp/filesys", "dochy_fs/src/imp/common"],
  [("save_dochy_file", "dochy_fs/src/imp/filesys/save_dochy_file.rs"), ("load_dochy_file", "dochy_fs/src/imp/filesys/load_dochy_file.rs"), ("remove_dochy_file", "dochy_fs/src/imp/filesys/remove_dochy_file.rs")],
  "dochy_fs::filesys public functions on a scratch directory")
p("F02", "Files saved under an older source load converted to the current source",
  "A Dochy file stays loadable after the source definition changes any number of times: loading it with the current source gives the same document as loading it with the source it was saved under and converting that document to the current source. The files of one source version are kept apart from those of another, even when they have the same name.",
  ["inputs", "histories", "configurations"], "every pair of compatible source definitions, every document state, every sequence of source changes including going back to an earlier one",
  "One manual example converts one fixed pair of sources.",
  ["dochy_fs/src/imp/filesys", "dochy_fs/src/imp/common/path", "dochy_fs/src/imp/common/archive", "dochy_core/src/imp/version_adjuster"],
  [("load_dochy_file", "dochy_fs/src/imp/filesys/load_dochy_file.rs"), ("hash directory", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"), ("adjust_versions", "dochy_core/src/imp/version_adjuster/version_adjuster.rs")],
  "dochy_fs::filesys::load_dochy_file")
p("F03", "Listing shows exactly the saved files and hash directories",
  "The list of Dochy files contains every file that was saved and not removed, once each, with the source hash and name it was saved under, ordered by modification time, and nothing else; the list of source hashes shows exactly the version directories present, each with the time it was created. Files and directories that do not belong to the save directory are ignored, and a source hash and its directory name convert into each other without loss.",
  ["inputs", "histories"], "every set of saved files over several source versions, every foreign file and directory name, every 128-bit hash",
  "No test lists a directory containing several versions or foreign names.",
  ["dochy_fs/src/imp/common/list", "dochy_fs/src/imp/common/path", "dochy_fs/src/imp/filesys/list_dochy_files.rs"],
  [("list_dochy_files", "dochy_fs/src/imp/filesys/list_dochy_files.rs"), ("hash naming", "dochy_fs/src/imp/common/path/hash.rs"), ("get_hash_times", "dochy_fs/src/imp/common/path/get_hash_times.rs")],
  "dochy_fs::filesys::list_dochy_files, dochy_fs::common::{get_hash_times, hash_dir_paths, remove_hash_dir}")
# ---------------------------------------------------------------- history
p("H01", "Every file in a history loads as exactly the document saved into it",
  "In a history directory, each file that was saved and not removed loads as exactly the document that was saved, for every choice of history options and every sequence of saves, edits, loads of arbitrary earlier files and saves derived from them. This holds with the in-process caches warm, and for another process that sees only the directory.",
  ["histories", "configurations", "inputs"], "every history of edits, saves, loads and derivations; every option combination; warm and cold caches; serial and parallel loading",
  "The test saves a linear series with default options and loads it in the same process with warm caches.",
  ["dochy_fs/src/imp/history"],
  [("save_history_file", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs"), ("load_history_file", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs"), ("ancestors", "dochy_fs/src/imp/history/file_hist/ancestors.rs"), ("phase cache", "dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs")],
  "dochy_fs::history public functions on a scratch directory")
p("H02", "A history lists its files in the order they were saved",
  "Listing a history yields exactly the files saved and not removed, in the order of saving within a source version and the versions in the order of their first use, each with the tag it was saved with and the newest one identified; a save that follows the load of a file that is not the newest starts a new branch that names the loaded file's branch, and a save that follows the newest state continues the branch. File names and their properties convert into each other without loss, and a tag that cannot be part of a file name is refused.",
  ["histories", "configurations", "inputs"], "every history of saves, loads and derivations, every option combination, every tag",
  "Tests print the list without checking it and never use tags.",
  ["dochy_fs/src/imp/history/file_hist", "dochy_fs/src/imp/history/file_name", "dochy_fs/src/imp/history/pub_fn"],
  [("FileHistory", "dochy_fs/src/imp/history/file_hist/file_history.rs"), ("list_files", "dochy_fs/src/imp/history/file_hist/file_histories.rs"), ("file name analysis", "dochy_fs/src/imp/history/file_name/analyze_file_name.rs")],
  "dochy_fs::history::list_histories, FileNameProps")
p("H03", "Removing old history files never breaks a file that is kept",
  "After old files are removed, whether by keeping the newest N or by an explicit set of files to keep, every kept file still loads as the document saved into it, and saving can go on from it. Only files that no kept file needs are deleted and the newest N files of the list (or all, if there are fewer) are always kept. Within one source version every file that is not needed is deleted; the files of an older version go or stay together.",
  ["histories", "configurations"], "every history, every option combination, every number N and every set of kept files",
  "No stable test removes history files.",
  ["dochy_fs/src/imp/history/remove", "dochy_fs/src/imp/history/file_hist"],
  [("HistoryRemover", "dochy_fs/src/imp/history/remove/history_remover.rs"), ("remove_old_files", "dochy_fs/src/imp/history/file_hist/file_histories.rs"), ("composite remover", "dochy_fs/src/imp/history/remove/composite_remover.rs")],
  "directory contents and dochy_fs::history::load_history_file after removal")
p("H04", "History files obey the configured phase and cumulative limits",
  "No history file lies deeper than the configured maximum phase, the series of files it must be composed from has the length that limit allows, and with the cumulative option no deepest phase holds more files in a row on one parent than the configured count (as long as there is a phase to move up to) while without it each file depends on its parents only. A file is written one phase up or kept in the same phase exactly as the documented size-averaging rule prescribes from the sizes of the existing files. Limits of zero and limits that contradict one another are refused when the options are made.",
  ["histories", "configurations"], "every option combination and every series of file sizes produced by saving",
  "Tests use one option set and do not look at phases.",
  ["dochy_fs/src/imp/history/algo", "dochy_fs/src/imp/history/file_hist/ancestors.rs", "dochy_fs/src/imp/history/fs"],
  [("calc_next_phase", "dochy_fs/src/imp/history/algo/calc_next_phase.rs"), ("should_shift_to_parent_phase", "dochy_fs/src/imp/history/algo/should_shift_to_parent_phase.rs"), ("phase data", "dochy_fs/src/imp/history/algo/phase_data.rs")],
  "file names and sizes in the history directory after each save")
p("H05", "History files of older sources load converted; mismatched use is refused",
  "After the source changes and the history options stay the same, every file saved under an older source still appears in the history list and loads as its document converted to the current source, new files are kept apart from the old ones, and saving continues after such a load. Opening a history directory again in the same process with a different source or different options is refused, while the same ones are accepted.",
  ["histories", "configurations", "inputs"], "every sequence of source versions with saves and loads under each",
  "No test changes the source of a history directory.",
  ["dochy_fs/src/imp/history", "dochy_core/src/imp/version_adjuster", "dochy_fs/src/imp/common/current_src"],
  [("load_history_file_data", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs"), ("FileHistories", "dochy_fs/src/imp/history/file_hist/file_histories.rs"), ("HistoryInfo::create", "dochy_fs/src/imp/history/history_info.rs")],
  "dochy_fs::history::{list_histories, load_history_file_data, HistoryInfo::create}")
p("H06", "A history file holds only what changed since the file it builds on",
  "While a process goes on saving a document, each history file takes no more room than the changes since the state it builds on, which is the source in phase 0 and a file of an upper phase or the one before otherwise; data that was not changed since, binary data included, is not written again. Loading other files, listing and removing old files in between do not change this. A file in a save directory takes no more room than what differs from the source.",
  ["histories", "configurations", "inputs"], "every sequence of edits, saves, loads and removals by a process, every option combination, documents with large unchanged members",
  "Tests print file sizes without checking them.",
  ["dochy_fs/src/imp/history/diff_and_cache", "dochy_fs/src/imp/history/fs", "dochy_diff/src/imp"],
  [("phase cache", "dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs"), ("derive_impl", "dochy_fs/src/imp/history/fs/derive_impl.rs"), ("get_diff", "dochy_diff/src/imp/get_diff.rs")],
  "sizes of the files in the history directory after each save")
p("N01", "Background saves store the state at the time of the call, in call order",
  "A non-blocking save stores the document as it was when the save was requested, however it is edited afterwards, and runs its callback exactly once with the result. Non-blocking history saves to one directory take effect in the order requested and saves to different directories or files from several threads disturb neither one another nor loads and lists made meanwhile. A save requested only if none is running is refused while another save to the directory is running, and done when none was requested since the last one reported.",
  ["schedules", "histories"], "every interleaving of requested saves, edits and loads over several threads and directories",
  "The tests queue a few saves of one document on one schedule.",
  ["dochy_fs/src/imp/history/current_root_obj_info", "dochy_fs/src/imp/filesys", "dochy_core/src/imp/structs/root_obj.rs"],
  [("fifo_thread", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs"), ("save_history_file_nb", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs"), ("save_dochy_file_nb", "dochy_fs/src/imp/filesys/save_dochy_file.rs")],
  "saved files and callbacks after the queues drain")
# ---------------------------------------------------------------- in-memory document
p("R01", "Reading a document returns the last value written, or the default",
  "For every parameter type, reading returns the last successfully written value exactly, the source's default if nothing was written, and null or undefined where those were set; other parameters are unaffected. Writing a value of another type, null to a parameter that is not nullable, or undefined to one that is not undefinable is refused and changes nothing, and a parameter counts as unmodified exactly while it was never written since the source was loaded. Asking for a member under a name that does not exist, or as another type or kind than it has, finds nothing and changes no value.",
  ["inputs", "programs", "histories"], "every source definition, every sequence of reads and writes through root and list items at any depth",
  "The tests check a few values of a fixed schema; type/null/undefined combinations and deep items are not covered.",
  ["dochy_core/src/imp/intf/root.rs", "dochy_core/src/imp/intf/mitem.rs", "dochy_core/src/imp/structs"],
  [("set_sabun", "dochy_core/src/imp/structs/util/set_sabun.rs"), ("root accessors", "dochy_core/src/imp/intf/root.rs"), ("item accessors", "dochy_core/src/imp/intf/mitem.rs")],
  "dochy_core::intf::{root, mitem}")
p("R02", "Cloned documents are independent snapshots",
  "A clone of a document has the same contents as the original at the moment of cloning, and from then on neither any edit to one (at any depth, including through item pointers obtained after cloning) nor dropping one is visible through the other, also when they are used from different threads. A clone also continues list IDs where the original would have.",
  ["histories", "schedules", "inputs"], "every tree of clones interleaved with edits and drops, on one or several threads",
  "One unit test clones a list of three numbers.",
  ["dochy_core/src/imp/structs/root_obj.rs", "dochy_core/src/imp/structs/linked_m.rs", "dochy_core/src/imp/structs/rust_list.rs"],
  [("copy on write", "dochy_core/src/imp/structs/root_obj.rs"), ("list clone", "dochy_core/src/imp/structs/linked_m.rs")],
  "dochy_core::intf on every live clone after every edit; address sanitizer in the memory-checked build")
p("L01", "Mutable lists behave as an ordered list with stable unique IDs",
  "A mutable list behaves as an ordered sequence of items with unique IDs: insertion, removal and every move operation change the order exactly as named and report success or failure correctly, lookups by ID, position and direction agree with that order, and an ID is never given to two different items during the list's life, even after removals or clones. All of this is free of memory errors.",
  ["histories", "inputs"], "every sequence of list operations, at top level and nested",
  "Unit tests run each operation on lists of about three items with fixed sequences.",
  ["dochy_core/src/imp/structs/linked_m.rs", "dochy_core/src/imp/intf/mlist_mut.rs", "dochy_core/src/imp/intf/mlist_ptr.rs", "dochy_core/src/imp/intf/mlist_const.rs"],
  [("linked list", "dochy_core/src/imp/structs/linked_m.rs"), ("list accessors", "dochy_core/src/imp/intf/mlist_ptr.rs")],
  "dochy_core::structs::LinkedMap and dochy_core::intf list handles; address sanitizer in the memory-checked build")
p("L02", "List iterators visit every item once, in order, from any start, both ways",
  "Iterating a list forwards or backwards, from either end or from a given ID, visits exactly the items on that side in list order; stepping an iterator back and forth moves one item at a time and its first/last/availability answers match its position. Mutable, read-only and read-only-table iterations agree with one another.",
  ["inputs", "histories"], "every list state, every starting point, every sequence of forward and backward steps",
  "Unit tests iterate three items forwards.",
  ["dochy_core/src/imp/structs/linked_map_iter.rs", "dochy_core/src/imp/structs/linked_map_iter_mut.rs", "dochy_core/src/imp/structs/linked_map_unsafe_iter.rs", "dochy_core/src/imp/intf/mlist_iter_const.rs", "dochy_core/src/imp/intf/mlist_iter_mut.rs", "dochy_core/src/imp/intf/clist_iter_const.rs"],
  [("LinkedMapIter", "dochy_core/src/imp/structs/linked_map_iter.rs"), ("MListIterMut", "dochy_core/src/imp/intf/mlist_iter_mut.rs"), ("CListIterConst", "dochy_core/src/imp/intf/clist_iter_const.rs")],
  "the iterator types of dochy_core::structs and dochy_core::intf")
p("T01", "References resolve to the table item they name",
  "Reading a reference of a table or list item yields the item of the referenced table whose ID was last set, or was given in the source, or is the default, and null or undefined where that applies; the ID read back is the one set. In an item with alternatives exactly one reference is active at a time: selecting one deactivates the others, and this state survives being saved and loaded.",
  ["inputs", "histories"], "every set of tables and lists with references, every sequence of reference assignments",
  "One manual example reads fixed references.",
  ["dochy_core/src/imp/intf/mitem.rs", "dochy_core/src/imp/intf/citem.rs", "dochy_core/src/imp/intf/table.rs", "dochy_core/src/imp/intf/ref_desc.rs", "dochy_diff/src/imp/apply/apply_refs.rs"],
  [("get_ref", "dochy_core/src/imp/intf/mitem.rs"), ("set_enum", "dochy_core/src/imp/intf/mitem.rs"), ("apply_refs", "dochy_diff/src/imp/apply/apply_refs.rs")],
  "dochy_core::intf::{mitem, citem, table}, also after a diff round trip")
p("V01", "Converting to a new source keeps the data both sources share",
  "Converting a document to a new source keeps every modified value, reference and mutable list (items, IDs, order and nested lists) whose name and kind exist in both sources, takes tables, constant lists and defaults from the new source, drops what the new source lacks, and gives everything never set the new default, or undefined if it may be undefined and the older source did not have it. Values that do not fit the new source (another type, null or undefined no longer allowed, references to removed items) are refused. Converting to the same source changes nothing, and neither document given is altered.",
  ["inputs", "histories"], "every pair of related sources and every document state of the older one",
  "Manual tests convert three fixed pairs of sources.",
  ["dochy_core/src/imp/version_adjuster"],
  [("adjust_versions", "dochy_core/src/imp/version_adjuster/version_adjuster.rs"), ("adjust_mut_list", "dochy_core/src/imp/version_adjuster/adjust_mut_list.rs"), ("adjust item", "dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs")],
  "dochy_core::adjust_versions")
# ---------------------------------------------------------------- sources
p("S01", "A source loads as the document it describes, however it is stored",
  "A source directory loads as a document with exactly the variables, types, null/undefined permissions, default values, tables, lists and items it writes down. The result is the same whether the definitions are in one file or split over several, loaded from the directory or from its archive, and however the text is laid out (comments, quoting, whitespace, trailing commas). Files with another extension and subdirectories are not part of a source.",
  ["inputs", "configurations"], "every valid source definition, every way of splitting and formatting it",
  "Tests load a few fixed sources and look at selected values.",
  ["dochy_core/src/imp/json_to_rust", "dochy_json5/src", "dochy_archiver2/src/imp"],
  [("json_dir_to_root", "dochy_core/src/imp/json_to_rust/roots/json_dir_to_root.rs"), ("construct_root", "dochy_core/src/imp/json_to_rust/construct_root.rs"), ("archive_data_to_root", "dochy_core/src/imp/json_to_rust/roots/archive_data_to_root.rs")],
  "dochy_core::{json_dir_to_root, archive_src_dir, read_archive_to_root}")
p("S02", "Invalid sources are refused with an error",
  "A source that is malformed or inconsistent (syntax errors, unknown or ill-typed tags, mixed arrays, illegal names or suffixes, members, table IDs or list IDs given twice, a next ID already in use, undeclared or ill-typed members of list items, null or undefined where it is not allowed, references to missing tables or items, references without a value, alternatives without exactly one choice, definitions or table items marked as old but still in use) is refused with an error when it is loaded with validation. No source text, however damaged, makes loading panic.",
  ["inputs", "fault_sequences"], "every single-fault corruption of a valid source and arbitrary damaged text",
  "Tests load only valid sources.",
  ["dochy_core/src/imp/json_to_rust", "dochy_core/src/imp/json_to_rust/validation", "dochy_json5/src"],
  [("validate_root", "dochy_core/src/imp/json_to_rust/validation/validate_root.rs"), ("json_item_to_rust", "dochy_core/src/imp/json_to_rust/json_item_to_rust.rs"), ("json_name", "dochy_core/src/imp/json_to_rust/json_name.rs")],
  "result of dochy_core::json_dir_to_root with validation")
p("J01", "JSON5 text parses to the value it denotes",
  "Every JSON5 document parses to the value it denotes in every legal spelling (comments, unquoted and quoted keys, single and double quoted strings with all escapes and line continuations, trailing commas, signs, leading and trailing decimal points, exponents, hexadecimal), with integers and reals told apart and members kept in order. Text that is not valid in this language, including duplicate keys and integers beyond 64 bits, is refused with an error, never with a panic.",
  ["inputs"], "every value in every legal spelling, and every mutation of a legal text",
  "One test prints the parse of one document.",
  ["dochy_json5/src"],
  [("from_str", "dochy_json5/src/de.rs"), ("deserialize_item", "dochy_json5/src/deserialize_item.rs")],
  "dochy_json5::from_str")
p("J02", "Parsed values and errors know their place in the text",
  "Each value of a parsed JSON5 text knows the range of the text that spells it and the number of the line it begins on, at any depth and in every spelling. The error for a text that is refused lies within the text, between two of its characters, and not behind a character that makes the text invalid.",
  ["inputs"], "every value in every legal spelling with every layout, and every mutation of a legal text",
  "No test looks at places in the text.",
  ["dochy_json5/src"],
  [("Span", "dochy_json5/src/jval.rs"), ("deserialize_item", "dochy_json5/src/deserialize_item.rs"), ("errors", "dochy_json5/src/error.rs")],
  "dochy_json5::{from_str, JVal, Span, MyError}")
p("X01", "Exporting a document to JSON and loading it back keeps its state",
  "The JSON text exported from a document is a source that loads as a document with the same current parameter values (now as defaults), the same tables and constant lists, the same mutable lists (items, IDs, order, next ID, nested lists, references) and the same definitions; an undefined top-level list is written as an empty one.",
  ["inputs", "histories"], "every document of every source, in every state",
  "Two tests print the exported text without loading it back.",
  ["dochy_core/src/imp/rust_to_json", "dochy_core/src/imp/structs/my_json.rs"],
  [("root_to_json", "dochy_core/src/imp/rust_to_json/root_to_json.rs"), ("Value to text", "dochy_core/src/imp/structs/my_json.rs")],
  "dochy_core::root_to_json_new_default then dochy_core::json_dir_to_root")
p("A01", "Archives restore their sources and hashes identify them",
  "An archive written from a source directory reads back as exactly the files of that directory (paths and contents), with the same hash as reading the directory directly. The hash is the same whenever, wherever and in whatever order the same files are read, and differs whenever any path or content differs.",
  ["inputs", "schedules"], "every directory tree and contents, every parallel reading schedule",
  "One test archives one fixed directory.",
  ["dochy_archiver2/src/imp", "dochy_core/src/imp/json_to_rust/roots"],
  [("write_archive", "dochy_archiver2/src/imp/write_archive.rs"), ("read_archive", "dochy_archiver2/src/imp/read_archive.rs"), ("read_archive_data_from_directory", "dochy_archiver2/src/imp/read_archive_data_from_directory.rs")],
  "dochy_archiver2 public functions on scratch directories")
# ---------------------------------------------------------------- encoding
p("C01", "The binary encoding restores every sequence of values",
  "Encoding any sequence of values and decoding it gives back the same sequence, value for value and kind for kind. Decoding reads exactly the bytes the encoder wrote, so that encoded sequences can follow one another in a stream, and encoding is deterministic and reports its length correctly.",
  ["inputs"], "every sequence of encodable values of any length, including every boundary magnitude and length",
  "One stable test encodes one fixed list.",
  ["dochy_compaction/src/enc_dec", "dochy_compaction/src/kval_enum.rs"],
  [("encode", "dochy_compaction/src/enc_dec/encode.rs"), ("decode", "dochy_compaction/src/enc_dec/decode.rs"), ("tags", "dochy_compaction/src/enc_dec/tag_storage.rs")],
  "dochy_compaction::enc_dec::{encode, encode_to_vec, decode, decode_from_slice}")
p("C02", "Compacting numbers and strings never changes their value",
  "Replacing an integer, real number or string by its most compact representation and reading it back as its original type gives exactly the original, also after encoding and decoding. Compaction of numeric-looking texts and of lists of strings restores every text exactly, and the URL-safe text form of binary data restores it byte for byte using only URL-safe characters.",
  ["inputs"], "every integer, every floating point value, every string, every list of strings, every byte sequence",
  "One stable test checks a handful of strings.",
  ["dochy_compaction/src/basic_compaction.rs", "dochy_compaction/src/string_compaction.rs", "dochy_compaction/src/url_string"],
  [("comp_double", "dochy_compaction/src/basic_compaction.rs"), ("string compaction", "dochy_compaction/src/string_compaction.rs"), ("url string", "dochy_compaction/src/url_string/mod.rs")],
  "dochy_compaction::{basic_compaction, string_compaction, url_string}")
p("E01", "Damaged files are reported as errors, never as crashes",
  "Loading a Dochy file, history file, archive or encoded value stream that was truncated, had bytes altered or is arbitrary data either fails with an error or yields some document; it never panics, aborts the process or exhausts memory. Loading an undamaged file afterwards works as before.",
  ["fault_sequences", "inputs"], "every truncation point, every byte alteration, arbitrary bytes, at every file of a save or history directory",
  "No test reads damaged data.",
  ["dochy_compaction/src/enc_dec", "dochy_diff/src/imp/read", "dochy_diff/src/imp/apply", "dochy_archiver2/src/imp", "dochy_fs/src/imp"],
  [("decode", "dochy_compaction/src/enc_dec/decode.rs"), ("apply_diff", "dochy_diff/src/imp/apply_diff.rs"), ("apply_items", "dochy_fs/src/imp/common/apply_items.rs")],
  "results of the load functions on damaged copies")
p("M01", "Memory is given back when documents are dropped and files were handled",
  "Memory taken by documents is released when the last copy is dropped, whatever was done with them: editing, cloning, taking and applying differences, converting, exporting, archiving and loading, also when an operation fails. A process that goes on saving, loading, listing and removing files of a directory holds a number of documents limited by the maximum phase, however many it has handled.",
  ["programs", "histories", "configurations"], "every program of document operations repeated and every history of file operations, over every option combination",
  "No test looks at memory.",
  ["dochy_core/src/imp/structs", "dochy_fs/src/imp/history/diff_and_cache", "dochy_fs/src/imp/common"],
  [("linked list nodes", "dochy_core/src/imp/structs/linked_m.rs"), ("phase cache", "dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs"), ("apply_items", "dochy_fs/src/imp/common/apply_items.rs")],
  "bytes requested from the allocator and not given back, at the public functions of dochy_core, dochy_diff and dochy_fs")
p("K01", "A failed or interrupted save or removal harms no saved file",
  "When a file operation fails during a save or removal, or the process dies at any point of it, every other saved file is still listed and loads as the state it was saved with, in the same process, in another one and after the source has changed. The file being saved is afterwards there completely with its new state, or it is as it was before: absent, or with its former state. Once the failure is over saving goes on as usual, and a removal that fails reports what it left.",
  ["crash_points", "fault_sequences", "histories"], "every sequence of edits, saves, overwrites, loads, removals and source changes, with a failure or the end of the process at every operation that changes a file or directory, writes cut off part way included",
  "No test lets a file operation fail.",
  ["dochy_fs/src/imp"],
  [("save_dochy_file", "dochy_fs/src/imp/filesys/save_dochy_file.rs"), ("save_history_file", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs"), ("prepare_hash_dir", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"), ("HistoryRemover", "dochy_fs/src/imp/history/remove/history_remover.rs")],
  "save directories and history directories after injected failures")
p("K02", "Failing reads give errors, never wrong documents, sources or lists",
  "When an operation that reads a file or directory fails while a document is loaded or saved, files are listed, or a source is opened, read or archived, the call fails with an error or gives the result it gives otherwise; it never panics. A failed call leaves nothing behind: repeated without the failure it works, and no saved file is lost or changed. Reads and writes that are done piecemeal or are interrupted make no difference.",
  ["fault_sequences", "histories"], "every history of saves and loads over source versions, with a failure at every operation that reads a file or directory, and every way of splitting reads and writes",
  "No test lets a file operation fail.",
  ["dochy_fs/src/imp", "dochy_archiver2/src/imp", "dochy_compaction/src/enc_dec"],
  [("list_histories", "dochy_fs/src/imp/history/pub_fn/list_histories.rs"), ("list_files", "dochy_fs/src/imp/common/list/list_files.rs"), ("apply_items", "dochy_fs/src/imp/common/apply_items.rs"), ("read_archive_data_from_directory", "dochy_archiver2/src/imp/read_archive_data_from_directory.rs")],
  "results of the calls under injected failures")
p("I01", "Generated accessors compile and access the members they are named after",
  "For every valid source, the generated accessor code compiles against the library, and each generated getter, default getter, setter, list, table, item and reference accessor reads or writes exactly the member it is named after with that member's type and null/undefined kind. Generating twice from the same source gives the same code.",
  ["programs", "inputs"], "every valid source definition whose names are distinct and are not reserved words of Rust",
  "The repository generates accessors for a few fixed sources.",
  ["dochy_intf/src/imp"],
  [("generate_interface", "dochy_intf/src/imp/generate_interface.rs"), ("param source", "dochy_intf/src/imp/structs/param_source.rs"), ("item sources", "dochy_intf/src/imp/structs/mitem_source.rs")],
  "compiled generated code compared with dochy_core::intf")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
