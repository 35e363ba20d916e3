TR = " Trusts the reference writer/reader in harness/pe_ref.h and the sanitizer runtime; explores generated cases only, no proof."
prop("C01", "Hostile bytes never do worse than a pe_exception",
 "Whatever the bytes of a file are, loading it, reading every directory, resource, header and address of it, editing it, rebuilding its directories and saving it either succeeds or reports a pe_exception (or std::bad_alloc for sizes the image itself announces). No input makes the library touch memory it does not own, crash, leak, run without end, or ask for memory out of proportion to the file and its image size.",
 ["inputs"], "every file content, as a file or a memory dump, opened as either format, and every sequence of reads, rebuilds and saves on what loads", "Tests feed a few handmade broken files; the space of corrupted files is unlimited.",
 ["pe_base.cpp", "pe_factory.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_resources.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_debug.cpp", "pe_exception_directory.cpp", "pe_dotnet.cpp", "pe_rich_data.cpp", "pe_rebuilder.cpp", "pe_resource_viewer.cpp", "resource_bitmap_reader.cpp", "resource_cursor_icon_reader.cpp", "resource_message_list_reader.cpp", "resource_string_table_reader.cpp", "resource_version_info_reader.cpp"], [("image loader", "pe_base.cpp read_pe"), ("resource reader", "pe_resources.cpp process_resource_directory"), ("all directory readers and rebuilders", "pe_*.cpp")], ["AddressSanitizer", "exceptions", "CPU time per case", "size of allocations", "live allocations"],
 "Coverage-guided fuzzing of corrupted structured images under AddressSanitizer, with leak, allocation and CPU limits", "Guided search over structured corruptions; shrunk to a replay.")
prop("C02", "Loading reports exactly what the file says and refuses broken containers",
 "Loading any well-formed PE or PE+ file, from a file image or a memory-mapped image, reports exactly the headers, directories, section table, section contents, stub and overlay flag that the file contains. A file that breaks a container rule (signatures, sizes, alignments, section bounds and order, truncation) is refused with the library's exception.",
 ["inputs", "configurations"], "every PE/PE+ layout: alignments, header positions, directory counts, section counts and gaps, raw/virtual size relations, overlays, and every single violation of a container rule",
 "Tests load a dozen real files and a few hand-broken ones; layouts vary over a space they barely sample.",
 ["pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp"], [("loader: reads headers, section table, raw data and checks them", "pe_base.cpp read_dos_header/read_pe"), ("header accessors", "pe_properties_generic.cpp")],
 ["header accessors", "section list", "has_overlay", "exceptions"], "PBT: generated PE files from an independent reference writer, field-by-field differential against the loader, plus mutated invalid files",
 "Differential against an independent model of the container over generated files; each generated violation must be refused." + TR)
prop("C03", "A saved image is well-formed, loads back identical, and saving is idempotent",
 "Saving a loaded image gives a file that obeys every layout rule of the format and loads back with the same headers, directories, sections and memory contents. Saving that file again gives the same bytes. The optional changes (stripped DOS header, adjusted header size, preserved bound imports) change only what they announce.",
 ["inputs", "configurations"], "every loadable image and every combination of save options",
 "Tests save a few real files with default options; padding, header growth, gaps and raw-less sections depend on the layout.",
 ["pe_rebuilder.cpp", "pe_base.cpp"], [("file writer", "pe_rebuilder.cpp rebuild_pe"), ("header size and pointer recalculation", "pe_rebuilder.cpp rebuild_pe")],
 ["bytes written to the output stream"], "PBT: save/parse round trip against a reference parser, layout invariants, idempotence of saving",
 "Round trip and idempotence over generated images." + TR)
prop("C04", "Any history of section edits leaves a contiguous, aligned, intact section table",
 "After any sequence of adding, resizing, renaming, editing, realigning and stripping sections, sections stay in order, contiguous and aligned, the image size matches, and every section's contents are what the edits made them. The saved file shows the same.",
 ["histories", "inputs"], "every finite sequence of section operations on any loadable image",
 "Tests run single operations on one image; defects appear in sequences and at alignment boundaries.",
 ["pe_base.cpp", "pe_section.cpp", "pe_properties_generic.cpp"], [("adding and preparing sections", "pe_base.cpp add_section/prepare_section"), ("size recalculation", "pe_base.cpp recalculate_section_sizes/set_section_virtual_size")],
 ["section list", "size of image", "saved file"], "PBT: stateful model-based testing of edit histories with shrinking", "Model-based histories of up to dozens of operations." + TR,
 [{"name": "section table", "meaning": "addresses, sizes and contents of all sections", "where": L + "pe_base.cpp"}])
prop("C05", "Address translations agree with the section table and invert each other",
 "Translations between virtual addresses, relative addresses, file offsets and section offsets give the value the section table implies, and are inverses wherever both are defined. An address outside the image or the representable range is refused, never mapped to a wrong place.",
 ["inputs"], "every address and offset, on every section layout, including 2 GB sections and extreme image bases",
 "Tests check a handful of addresses of one image; off-by-one and overflow errors sit at section edges and at the limits of 32/64-bit arithmetic.",
 ["pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp"], [("rva/va/file offset translation", "pe_base.cpp *_to_*"), ("section lookup", "pe_base.cpp section_from_*")],
 ["returned addresses", "exceptions"], "PBT: differential against a reference address model at boundary-biased addresses, inverse relations", "Exact oracle on boundary-biased addresses." + TR)
prop("C06", "Reading and writing section data is bounds-exact and views stay coherent",
 "Any typed or untyped access to image data by address succeeds exactly when the whole range lies in the chosen view (file or memory) of one section or of the headers, and then returns exactly those bytes. Changes made through one view are seen by the other, and no access touches memory outside the data.",
 ["inputs", "histories"], "every (address, size, view) triple and every sequence of edits and reads", "Tests read a few in-range values; out-of-range by one, zero-filled tails and view switching need search.",
 ["pe_base.cpp", "pe_section.cpp"], [("bounded data access", "pe_base.cpp section_data_from_rva/section_data_length_from_*"), ("raw and virtual views", "pe_section.cpp get_virtual_data/map_virtual/unmap_virtual")],
 ["returned bytes and lengths", "AddressSanitizer"], "PBT: bounded access oracle at edges, under AddressSanitizer, with histories of view switches", "Exact accept/refuse oracle plus memory safety." + TR)
prop("C07", "Any history of header edits is reflected exactly, in copies and saved files",
 "After any sequence of header and data-directory edits every accessor returns the last value set, other fields are unchanged, and the saved file carries the same values. Copies are independent of the original, and assigning an image to itself changes nothing. Removing directories keeps at least the requested number and drops only empty ones.",
 ["histories", "inputs"], "every sequence of setter, directory, strip, copy and assignment operations on any image", "Tests set each field once; interference, truncation and aliasing show up only in sequences.",
 ["pe_base.cpp", "pe_properties_generic.cpp", "pe_properties.cpp"], [("header accessors", "pe_properties_generic.cpp"), ("copying", "pe_base.cpp copy constructor/operator="), ("directory list", "pe_properties_generic.cpp strip_data_directories")],
 ["accessors", "saved file"], "PBT: stateful model-based testing of header edits, copies and saves", "Model-based histories." + TR)
prop("C08", "The import reader returns exactly the libraries and functions an image declares",
 "For every well-formed import directory the reader returns each library with its name, binding, table addresses, and each function with its ordinal or name, hint and bound address, in order. Directories whose tables leave the image are refused with the library's exception.",
 ["inputs"], "every import table layout, bound or not, with or without original tables, by name and by ordinal", "Tests read imports of a few linked files; unusual layouts never occur in them.",
 ["pe_imports.cpp"], [("import directory reader", "pe_imports.cpp get_imported_functions")], ["returned import list"], "PBT: reference writer of import directories, exact comparison with the reader's result", "Exact oracle over generated tables." + TR)
prop("C09", "Rebuilt imports decode to the given list and disturb nothing else",
 "Rebuilding imports from any list with any options yields tables that an independent reader of the saved file decodes to exactly that list, with the import address and original tables consistent. Bytes outside the announced area keep their values, and headers change only when asked. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "configurations"], "every import list, target section, offset and option combination, including rewriting original tables in place", "Tests rebuild a couple of lists with default options; table sizes, in-place rewriting and missing tables multiply.",
 ["pe_imports.cpp", "pe_base.cpp"], [("import rebuilder", "pe_imports.cpp rebuild_imports")], ["saved file", "returned directory", "untouched bytes"], "PBT: rebuild, save, decode with a reference reader, compare list and every untouched byte", "Round trip over generated lists and options." + TR)
prop("C10", "The export reader returns exactly the functions an image exports",
 "For every well-formed export directory the reader returns each exported function with its ordinal, address, name, name position and forwarder, and the library information. Contradictory or out-of-image directories are refused with the library's exception.",
 ["inputs"], "every export directory layout: gaps, nameless functions, forwarders, any ordinal base, any order of names", "Tests read exports of a few linked files.", ["pe_exports.cpp"], [("export directory reader", "pe_exports.cpp get_exported_functions")], ["returned export list"],
 "PBT: reference writer of export directories, exact comparison with the reader's result", "Exact oracle over generated directories." + TR)
prop("C11", "Rebuilt exports decode to the given list and disturb nothing else",
 "Rebuilding exports from any consistent list yields a directory that an independent reader of the saved file decodes to exactly that list, with names sorted as lookup requires. Bytes outside the announced area keep their values; contradictory lists are refused. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "configurations"], "every export list (order, gaps, names, forwarders), target section, offset and option", "Tests rebuild two lists; ordinals, gaps and sorting multiply.", ["pe_exports.cpp", "pe_base.cpp"], [("export rebuilder", "pe_exports.cpp rebuild_exports")],
 ["saved file", "returned directory", "untouched bytes"], "PBT: rebuild, save, decode with a reference reader, compare list and every untouched byte", "Round trip over generated lists." + TR)
prop("C12", "Relocation tables are read exactly and rebuilt to the same tables",
 "For every well-formed relocation directory the reader returns every block and entry in order, and refuses malformed blocks. Rebuilding any list of tables gives an aligned directory that decodes to the same tables, touching nothing outside its area; entries that do not fit the format's 12-bit addresses and 4-bit types are refused. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "configurations"], "every list of relocation blocks, entry types, target section, offset and option", "Tests read and rebuild one relocation directory.", ["pe_relocations.cpp"], [("relocation reader", "pe_relocations.cpp get_relocations"), ("relocation rebuilder", "pe_relocations.cpp rebuild_relocations")],
 ["returned tables", "saved file"], "PBT: reference writer/reader of relocation blocks, exact comparison both ways", "Exact oracle and round trip." + TR)
prop("C13", "Rebasing moves every relocated address by the base difference and nothing else",
 "Rebasing an image adds the difference of the bases to each relocated pointer and leaves every other byte unchanged, and the image then reports the new base. Rebasing twice equals rebasing once to the last base, and rebasing back restores the image. A relocation outside the image data is refused.",
 ["inputs", "histories"], "every base pair and every list of relocations, for 32-bit and 64-bit images", "Tests rebase one image by one difference; carries, sign, section tails and headers are not reached.", ["pe_relocations.cpp"], [("rebasing", "pe_relocations.cpp rebase_image_base")],
 ["section and header bytes before and after"], "PBT: exact byte model of rebasing, composition and inverse relations", "Exact byte oracle plus metamorphic relations." + TR)
prop("C14", "Resource trees of any shape are read exactly and rebuilt to the same tree",
 "Every well-formed resource tree is read with all names, identifiers, headers, code pages and data, and lookups find exactly the entries present; loops and out-of-image structures are refused. Rebuilding any tree, however it was assembled and copied, gives a sorted directory inside its announced area that decodes to the same tree; what the format cannot hold (names and directories longer than 65535) is refused. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "histories", "configurations"], "every tree shape, name, data size, layout, target section and offset, and every way to assemble the tree by copies and assignments", "Tests use the resource trees of two sample files.", ["pe_resources.cpp"],
 [("resource reader", "pe_resources.cpp process_resource_directory"), ("resource rebuilder", "pe_resources.cpp rebuild_resources"), ("entry ownership", "pe_resources.cpp resource_directory_entry")],
 ["returned tree", "saved file", "AddressSanitizer"], "PBT: generated trees, reference writer and reader, exact comparison both ways", "Exact oracle and round trip over generated trees." + TR)
prop("C15", "Any history of resource edits leaves exactly the resources added and not removed",
 "After any sequence of additions, replacements and removals of resources, every list, count, lookup by name, identifier, language or index reports exactly the resources added and not removed, with their data, code pages and timestamps. Removals report whether something was removed, and emptied levels disappear. Saving and reloading the image changes nothing of this.",
 ["histories"], "every sequence of resource additions, replacements and removals through every overload, with saves in between", "Tests do a few fixed edits; wrong overloads, emptied levels and mixed names and identifiers show up only in sequences.",
 ["pe_resource_manager.cpp", "pe_resource_viewer.cpp", "pe_resources.cpp"], [("resource editing", "pe_resource_manager.cpp add_resource/remove_resource"), ("resource queries", "pe_resource_viewer.cpp")],
 ["results of every query", "saved file"], "PBT: stateful model-based testing of resource edits against a map", "Model-based histories." + TR)
prop("C16", "Icons and cursors added to resources come back exactly and overwrite nothing",
 "After any sequence of icon and cursor files added to and removed from groups, every group and single picture reads back as the file that was put in, by language and by language index, and pictures that were there before keep their data. New pictures get the identifiers the placement mode promises, and additions with broken files or without free identifiers are refused. A refused file changes nothing.",
 ["histories", "inputs"], "every sequence of icon and cursor additions and removals in both placement modes, over any existing identifiers", "Tests add one icon to a sample; identifier gaps, several languages and overlapping picture data multiply.",
 ["resource_cursor_icon_reader.cpp", "resource_cursor_icon_writer.cpp"], [("icon and cursor reader", "resource_cursor_icon_reader.cpp"), ("icon and cursor writer", "resource_cursor_icon_writer.cpp")],
 ["icon and cursor files read back", "raw resources"], "PBT: stateful model-based testing with reference icon and cursor files", "Model-based histories with byte-exact oracle." + TR)
prop("C17", "Bitmaps put into resources come back as the same bitmap files",
 "Every bitmap file added to resources is read back byte for byte by name or identifier, language or index, whatever its colour depth, palette, compression masks and header version, after any other bitmaps were added, replaced or removed. Files and resources too short to be bitmaps are refused. A refused file changes nothing.",
 ["inputs", "histories"], "every bitmap file of header versions 1 to 5 and every sequence of additions, replacements and removals", "Tests use one bitmap; the recreated file header depends on palette, masks and header version.",
 ["resource_bitmap_reader.cpp", "resource_bitmap_writer.cpp"], [("bitmap reader", "resource_bitmap_reader.cpp create_bitmap"), ("bitmap writer", "resource_bitmap_writer.cpp")],
 ["bitmap files read back"], "PBT: round trip of generated bitmap files in histories", "Round trip, byte-exact." + TR)
prop("C18", "Version information is written, read and edited exactly",
 "Version information that is set reads back identically and is stored as a well-formed block tree, or is refused if it does not fit; version blocks laid out by other tools are read exactly and truncated ones refused. The version editor changes only the string and translation it is told to, with translations matched regardless of case. Refused information changes nothing.",
 ["inputs", "histories"], "every fixed information, set of string tables and translations, layout variant, truncation and edit sequence", "Tests write and read one block; padding, lengths near the limit and foreign layouts are not reached.",
 ["resource_version_info_reader.cpp", "resource_version_info_writer.cpp", "version_info_editor.cpp", "version_info_viewer.cpp", "file_version_info.cpp"], [("version reader", "resource_version_info_reader.cpp get_version_info"), ("version writer", "resource_version_info_writer.cpp set_version_info"), ("version editor", "version_info_editor.cpp")],
 ["version information read back", "resource bytes", "maps of the editor"], "PBT: round trip, strict reference decoder and encoder of version blocks, model-based edits", "Round trip plus differential with a strict reference codec." + TR)
prop("C19", "String tables and message tables are read exactly, incomplete ones refused",
 "Every well-formed string table and message table is read with exactly its strings and messages under their identifiers, by language and by index, and lookups of absent strings are refused. Tables that are cut off or contradict themselves are refused with the library's exception, without reading beyond the data.",
 ["inputs"], "every string and message table layout, any identifiers, characters and padding, and every truncation", "Tests read one table of each kind.",
 ["resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "message_table.cpp"], [("string table reader", "resource_string_table_reader.cpp parse_string_list"), ("message table reader", "resource_message_list_reader.cpp parse_message_list")],
 ["returned strings and messages", "AddressSanitizer"], "PBT: reference writers of string and message tables, exact comparison, truncations under AddressSanitizer", "Exact oracle over generated tables." + TR)

prop("C20", "Thread-local storage is read exactly and rebuilt within its bounds",
 "For every well-formed TLS directory the reader returns its addresses, zero fill size, characteristics, raw data and callbacks exactly, and refuses directories that leave the image. Rebuilding TLS with any data and callbacks writes exactly what its options announce, cuts data and callbacks only at the announced sizes, and changes nothing else. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "configurations"], "every TLS directory of 32-bit and 64-bit images, every placement of data and callbacks, every rebuild option and available size", "Tests read and rebuild one TLS directory; tails of sections, cut data and callback lists that do not fit are not reached.",
 ["pe_tls.cpp"], [("TLS reader", "pe_tls.cpp get_tls_info_base"), ("TLS rebuilder", "pe_tls.cpp rebuild_tls_base")], ["returned TLS information", "image bytes", "saved file"],
 "PBT: reference writer/reader of TLS directories, exact comparison both ways, every untouched byte", "Exact oracle and byte-exact rebuild." + TR)
prop("C21", "Load configuration is read exactly and rebuilt to the same configuration",
 "For every well-formed load configuration the reader returns every field, the exception handlers and the lock prefix addresses exactly; configurations that are cut off or point outside the image are refused. Rebuilding any configuration gives a directory and tables that decode to it, touching nothing outside the announced area. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "configurations"], "every field value, table length and placement, target section, offset and option, for 32-bit and 64-bit images", "Tests read and rebuild one configuration per format.",
 ["pe_load_config.cpp"], [("load config reader", "pe_load_config.cpp get_image_config_base"), ("load config rebuilder", "pe_load_config.cpp rebuild_image_config_base")], ["returned configuration", "image bytes", "saved file"],
 "PBT: reference writer/reader of load configurations, exact comparison both ways, every untouched byte", "Exact oracle and round trip." + TR)
prop("C22", "Bound imports are read exactly and rebuilt to the same list",
 "For every well-formed bound import directory, in a section or in the headers, the reader returns every module, reference and timestamp in order, and refuses directories whose names or descriptors leave the data. Rebuilding any list gives a directory that an independent reader decodes to that list, in exactly the announced area, or is refused if it cannot be expressed. A rebuild refused for lack of room leaves the image as it was.",
 ["inputs", "configurations"], "every list of modules and references, name layout, directory placement, target section and offset", "Tests read and rebuild one list.",
 ["pe_bound_import.cpp"], [("bound import reader", "pe_bound_import.cpp get_bound_import_module_list"), ("bound import rebuilder", "pe_bound_import.cpp rebuild_bound_imports")], ["returned list", "image bytes", "saved file"],
 "PBT: reference writer/reader of bound imports, exact comparison both ways, every untouched byte", "Exact oracle and round trip." + TR)
prop("C23", "Debug information is read exactly, and contradictory records are refused",
 "For every well-formed debug directory the reader returns every entry and its CodeView, miscellaneous or COFF symbol record exactly, wherever the record lies in the file. Records that are cut off or contradict their own lengths are refused, and copies and assignments of debug information keep all of it.",
 ["inputs"], "every debug directory, record type, symbol table with auxiliary records and string table, truncation, and copy sequence", "Tests read two debug directories.",
 ["pe_debug.cpp"], [("debug reader", "pe_debug.cpp get_debug_information"), ("symbol table reader", "pe_debug.cpp get_debug_information"), ("copying", "pe_debug.cpp debug_info::copy_info")], ["returned debug information", "AddressSanitizer"],
 "PBT: reference writer of debug directories and records, exact comparison, truncations under AddressSanitizer", "Exact oracle over generated directories." + TR)

prop("C24", "Exception directories and .NET headers are read exactly",
 "For every well-formed exception directory the reader returns exactly the functions its size announces, with their unwind information, and for every .NET header all of its fields and flags. Tables that are unaligned, cut off, contradictory or point outside the image are refused.",
 ["inputs"], "every function table, placement of unwind information, data behind the table, and every .NET header", "Tests read one directory of each kind.",
 ["pe_exception_directory.cpp", "pe_dotnet.cpp"], [("exception directory reader", "pe_exception_directory.cpp get_exception_directory_data"), (".NET header reader", "pe_dotnet.cpp get_basic_dotnet_info")], ["returned functions", "returned .NET information"],
 "PBT: reference writer of function tables, unwind information and .NET headers, exact comparison", "Exact oracle over generated directories." + TR)
prop("C25", "The Rich header of the DOS stub is decoded exactly and survives saving",
 "For every DOS stub the Rich header is decoded to exactly the records between its markers with any key and at any position, and to nothing if the markers are missing or cut off. No byte outside the stub is read, and the saved image decodes to the same records.",
 ["inputs"], "every stub, key, number of records, position, trailing data and truncation", "Tests decode two stubs.",
 ["pe_rich_data.cpp"], [("Rich header decoder", "pe_rich_data.cpp get_rich_data")], ["returned records", "AddressSanitizer"],
 "PBT: differential against a reference decoder over generated and truncated stubs", "Exact oracle over generated stubs." + TR)
prop("C26", "Checksum and entropy have their standard values for any data",
 "The calculated checksum of any file is the one's complement 16-bit sum plus length that the PE format defines, independent of the stored checksum, so a saved image given its checksum verifies. Entropy of any buffer, stream rest, section or image is Shannon's entropy of its bytes; empty data is refused.",
 ["inputs"], "every file size and content, every place of the checksum field, every byte distribution and stream position", "Tests compare a few constants.",
 ["pe_checksum.cpp", "entropy.cpp"], [("checksum", "pe_checksum.cpp calculate_checksum"), ("entropy", "entropy.cpp calculate_entropy")], ["returned values", "stream position"],
 "PBT: differential against reference formulas, metamorphic relations (stored value, order, repetition)", "Reference values on generated data." + TR)
prop("C27", "Streams are left as they were, and a failing stream never gives a wrong result",
 "Every function that reads a stream leaves its position, state and exception mask as they were, on success and on refusal, and works the same whatever the mask is. A read, seek or write that fails at any point leads to the exception or a failed output stream, never to a wrong image, checksum, entropy or file, and leaks nothing.",
 ["inputs", "faults"], "every stream operation as the failing one, failing or throwing, once or forever, every start position, exception mask and file", "Tests use healthy string and file streams only.",
 ["pe_base.cpp", "pe_checksum.cpp", "entropy.cpp", "pe_rebuilder.cpp", "pe_factory.cpp", "utils.cpp"], [("stream state handling", "pe_base.cpp constructor and get_pe_type"), ("checksum stream handling", "pe_checksum.cpp calculate_checksum"), ("saving", "pe_rebuilder.cpp rebuild_pe")], ["results", "stream state", "live allocations"],
 "PBT: fault injection at every stream operation against the fault-free run, state invariants", "Differential with the fault-free run." + TR)
prop("C28", "Rebuilding any directories in any order leaves all of them intact",
 "After any history of rebuilding, re-reading and rebuilding, removing, copying and assigning the image, realigning, rebasing, saving and loading directories of one image, every directory still reads as exactly what was last written to it. All bytes of sections and headers that no step was asked to change keep their values, a copy or an assigned image holds everything its source holds, and the saved file is well-formed.",
 ["histories"], "every order of operations on imports, exports, resources, relocations, TLS, load configuration and bound imports of one image, in separate, shared and reused sections", "Tests rebuild one directory of one image at a time.",
 ["pe_imports.cpp", "pe_exports.cpp", "pe_resources.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_base.cpp", "pe_rebuilder.cpp"], [("directory rebuilders", "pe_imports.cpp rebuild_imports"), ("section bookkeeping", "pe_base.cpp recalculate_section_sizes"), ("saving", "pe_rebuilder.cpp rebuild_pe")], ["returned directories", "image bytes", "saved file"],
 "PBT: stateful model-based histories, every directory compared with its model after every step", "Exact model of seven directories, checked after every step.")

prop("C29", "Value objects hold exactly what they were given, and copies are independent",
 "Every record class of the API (imported and exported functions, libraries, export information, bound imports, relocation entries and tables, directory records, TLS, load configuration, Rich records, debug information with its details, resource entries and directories, version information, message items, exception entries, sections, rebuilder settings) starts with its documented default values, and after any history of setting, clearing, constructing from file structures, copying, assigning (also from itself or from a part of itself), swapping and destroying, each getter returns exactly the value last given to that object and no other object changes; an accessor of a kind the object does not hold is refused with the library's exception. New images have their documented header values, no sections and no directories.",
 ["histories"], "every sequence of setters, constructions from structures, copies, assignments, swaps and aliased assignments over up to six objects of each class, and nested resource trees", "Tests set each field of a few objects once and never copy from inside an object.",
 ["pe_imports.cpp", "pe_exports.cpp", "pe_bound_import.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_debug.cpp", "pe_resources.cpp", "file_version_info.cpp", "message_table.cpp", "pe_section.cpp", "pe_exception_directory.cpp", "pe_rich_data.cpp"], [("copying owned debug details", "pe_debug.cpp debug_info::copy_info"), ("copying resource entries", "pe_resources.cpp resource_directory_entry::operator="), ("new image", "pe_properties_generic.cpp create_pe")], ["every getter of every object", "exceptions"],
 "PBT: stateful model-based histories over value objects, every getter of every object compared with its model after every step", "Exact model of every getter, checked after every step.")
prop("C30", "Helper functions and text conversions are exact for every argument",
 "Aligning up and down, the power-of-two test, the safe-sum test, the termination test (which reads no byte beyond the given length), stripping of ending zeros, GUID comparison and the stream size have their defined result for every argument, and conversion between wide and UCS-2 text keeps every character: text of the basic plane is always converted, any other text is converted exactly or refused with the library's exception.",
 ["inputs"], "all numbers and alignments, all strings in exactly sized buffers, all characters", "Tests compare about twenty constants.",
 ["utils.cpp", "utils.h"], [("text conversion", "utils.cpp to_ucs2, from_ucs2"), ("alignment", "utils.h align_up, align_down"), ("termination", "utils.h is_null_terminated")], ["returned values", "exceptions", "bytes read"],
 "PBT: differential against direct definitions, round-trip of text", "Reference values on generated data." + TR)
