"""The properties: what is stated, and how each is decided."""
from meta import PROPS, prop

prop("C01", "Every version of an object extracts exactly as it was put in",
     "For any sequence of source directory trees and version metadata written as the versions of an object (built in one go, or created and then updated), extracting any version, or head, yields exactly the files of that version's source tree: the same relative paths with byte-identical content and nothing else. The returned version metadata equals what was supplied, single-file extraction yields the same bytes, and asking for a version or file that does not exist is refused. This holds for every choice of digest algorithm, content directory, content path normalization, deduplication and forward-delta setting.",
     ["inputs", "histories", "configurations"],
     "All source trees (including odd, non-ASCII and hidden names, duplicate and empty content, content moving between paths and versions), all numbers of versions, all writing configurations, and every version read back at every point in the history.",
     "The tests build a few fixed fixtures with ordinary names and compare only some outcomes; data loss through a path mapping, deduplication or forward-delta decision shows only for particular combinations of contents, names and configuration over several versions.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py"],
     [("Object.build / create / add_version_with_content", "ocfl/object.py"), ("NewVersion.add, content path choice", "ocfl/new_version.py"), ("Object.extract / extract_file", "ocfl/object.py")],
     "non-trivial: at least two versions and content that is repeated within a version or shared between versions, so that deduplication or forward delta decides where bytes live",
     "generated version histories written with the library and read back, compared byte for byte with the source trees (round trip)")

prop("C02", "Every object the library writes is a valid OCFL object",
     "After any successful build, creation or update, the object on disk is a valid OCFL object of the requested specification version, with the requested identifier, digest algorithm and content directory, as judged both by an independent reading of the specification and by the library's own validator.",
     ["inputs", "histories", "configurations"],
     "All histories, metadata and configurations as for C01, judged after every version that is written.",
     "Tests validate a handful of built fixtures; validity has to hold for every combination of content, path and configuration, and for the intermediate objects of a history.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py", "ocfl/validator.py"],
     [("Object._write_inventory_and_sidecar, declaration", "ocfl/object.py"), ("NewVersion", "ocfl/new_version.py"), ("Object.validate", "ocfl/object.py")],
     "non-trivial: at least two versions with at least one file",
     "generated histories written with the library and judged by an independent OCFL validator (reference model) and by the library's validator")

prop("C03", "Adding a version never alters what earlier versions hold",
     "Updating an object by any route (new content directory, metadata only, or individual additions and deletions) leaves every existing file other than the root inventory and its sidecar untouched, and the new inventory describes every earlier version with the same state and metadata as before. Source directories are never modified. The new version's number is one more than the previous head.",
     ["histories", "configurations", "inputs"],
     "All histories of updates, including changes of digest algorithm, deduplication, normalization and fixity settings between versions, and objects holding extra extension or log files.",
     "Immutability is a statement about every pair of states in a history; tests compare single before/after pairs for fixed fixtures.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py"],
     [("Object.add_version_with_content / write_new_version", "ocfl/object.py"), ("NewVersion.next_version", "ocfl/new_version.py")],
     "non-trivial: an update of an object that already has content",
     "generated update histories with full snapshots before and after each update, compared by an invariant over the history")

prop("C10", "Damage to a stored object is always detected by validation",
     "If anything an OCFL object's inventory accounts for is altered after the object was written, validation fails and names the kind of damage: a content file changed by even one bit, truncated, extended, removed, renamed, swapped with another or replaced by a directory; a file added where none is listed; an inventory or sidecar changed, removed or exchanged; a version directory, declaration or other part of the structure removed, renamed or added. The damage is found in any version, at any path, whatever the digest algorithm.",
     ["inputs", "histories"],
     "All valid objects (independently generated: several versions, layouts of content, both specification versions, all kinds of file names) and every kind and place of damage.",
     "The tests validate a few damaged fixtures, each with one kind of damage in one place; detection has to hold for each file of each version, at every position in it.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/digest.py"],
     [("Validator.validate_object, validate_content, validate_structure", "ocfl/validator.py"), ("file_digest", "ocfl/digest.py")],
     "non-trivial: damage that was applied to an object with content (kinds that do not apply to the object are not counted)",
     "fault injection: generated valid objects with one generated piece of damage, oracle is the error codes that kind of damage must give")

prop("C11", "Valid objects are never reported invalid, and warnings are exact",
     "A valid OCFL object, however it was produced (any order, spacing and letter case the specification allows, any layout of content, mixed specification versions and digest algorithms over versions, absent version inventories, zero-padded versions, extensions and logs), passes validation with no error and with exactly the warnings that apply, and its identifier and specification version are reported. All its versions are read back correctly.",
     ["inputs", "configurations"],
     "All objects a generator independent of the library can make, covering each latitude the specification gives.",
     "False alarms depend on combinations of features that no fixture has; the library's own objects use only one form.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/object.py", "ocfl/inventory.py"],
     [("Validator", "ocfl/validator.py"), ("InventoryValidator", "ocfl/inventory_validator.py"), ("Object.extract, parse_inventory", "ocfl/object.py")],
     "non-trivial: at least two versions and at least one file",
     "objects from an independent generator with the expected warnings computed from how they were made (differential against a model)")

prop("C12", "Every specification rule for inventories is enforced with its own code",
     "For every rule the specification sets for an inventory (required keys, types, identifiers, version numbering, digest forms and algorithms, manifest and state consistency, path forms and conflicts, dates, users, fixity), an otherwise valid inventory that breaks the rule is rejected with the rule's error code, and one that breaks none is accepted.",
     ["inputs"],
     "All valid inventories, with each rule broken in each possible place by each of a family of values; and inventories edited at random, compared with an independent reading of the rules.",
     "There is one fixture for most rules, and none for many ways of breaking them; regular expressions and type checks fail on particular values only.",
     ["ocfl/inventory_validator.py", "ocfl/w3c_datetime.py", "ocfl/digest.py"],
     [("InventoryValidator.validate and its parts", "ocfl/inventory_validator.py"), ("str_to_datetime", "ocfl/w3c_datetime.py"), ("digest_regex, normalized_digest", "ocfl/digest.py")],
     "non-trivial: the inventory was changed by the generated rule-breaking edit",
     "generated inventories mutated rule by rule and at random, judged against an independent model of the rules")

prop("C13", "Validation decides every directory tree, and agrees with the specification",
     "Validation gives a verdict for every directory tree: whatever files, directories, bytes and JSON it holds, validation neither raises an exception nor changes anything, and it passes the tree only if an independent reading of the specification finds it to be a valid object.",
     ["inputs"],
     "All trees reached from valid objects by random structural, textual and JSON edits (also with sidecars recomputed so that deep checks are reached), and arbitrary JSON as inventory.",
     "Robustness against arbitrary input cannot be sampled by hand-made fixtures.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/namaste.py", "ocfl/fsw.py"],
     [("Validator.validate_object", "ocfl/validator.py"), ("InventoryValidator.validate", "ocfl/inventory_validator.py")],
     "non-trivial: a tree different from the valid object it was made from, in which an inventory is still parsed",
     "structured fuzzing of objects with a differential oracle (independent validator) and a no-crash, no-change invariant")

prop("C14", "The verdict does not depend on where or how an object is stored or read",
     "The outcome of validation (verdict and codes) is the same for the same object as local directory, zip file or memory filesystem, whatever the spelling of its path, the working directory, the order in which the filesystem lists entries, the logging options, or what the same Validator looked at before; leaving out digest checks only leaves out digest errors; and reordering keys and paths or changing the white space of inventories (with their sidecars) makes no difference.",
     ["inputs", "configurations", "histories"],
     "All generated valid and damaged objects, each looked at in a range of ways.",
     "These are relations between runs; the tests look at each fixture once, mostly in one way.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/fsw.py", "ocfl/validation_logger.py"],
     [("Validator.initialize and validate_object", "ocfl/validator.py"), ("fsw_openfs, fsw_walk", "ocfl/fsw.py")],
     "non-trivial: an object with at least one file",
     "metamorphic relations between validations of the same generated object")

prop("C15", "Inventories of earlier versions are held to the rules and to the head",
     "Each version directory's inventory must itself be valid for its own version, have the object's identifier and content directory, not claim a later specification version, and describe the same logical state of each earlier version as the root inventory; any departure makes validation fail with the fitting code, and differences the specification allows (metadata, digest algorithm, fixity) do not.",
     ["inputs", "histories"],
     "All generated multi-version objects and every kind of departure in every earlier version.",
     "There are few fixtures, all with two versions; the comparisons depend on which versions have inventories and which digest algorithms they use.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py"],
     [("Validator.validate_version_inventories", "ocfl/validator.py"), ("InventoryValidator.validate_as_prior_version", "ocfl/inventory_validator.py")],
     "non-trivial: a departure was applied to an earlier version's inventory",
     "generated objects with one earlier inventory changed (sidecar recomputed), oracle is the codes that departure must give")

prop("C04", "A failed or refused operation leaves what was stored intact",
     "If creating, building or updating an object fails at any point (crash, input/output error, full disk), no file that existed before is lost or altered, except that the root inventory and its sidecar are only replaced once the new version directory is complete; nothing is left outside the new version; the source is untouched; failure is never reported as success; and a half-done object never passes validation with different content. A request that is refused (invalid object, missing source, unusable settings, illegal or conflicting paths, existing destination, no difference, a new version started from an outdated state) changes nothing at all.",
     ["faults", "crash points", "histories", "inputs"],
     "Every file operation of every generated create, build and update as the point of a crash, a single or lasting I/O error, or a file size limit; and every kind of refusal on generated objects.",
     "No test injects a fault; the guarantee is about each of the dozens of points at which an operation can stop.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/fsw.py"],
     [("Object.write_new_version, create, build", "ocfl/object.py"), ("Object.start_new_version", "ocfl/object.py"), ("_check_path", "ocfl/new_version.py")],
     "non-trivial: the injected fault was actually hit, or a refusal was provoked",
     "fault injection at generated points (audit hook, process kill, file size limit) with an invariant over before, after and intended states")

prop("C05", "A new version assembled from changes holds exactly those changes",
     "Starting from nothing or from the previous version's state, any sequence of additions, deletions, renames and metadata settings gives a version that holds exactly the resulting logical paths with the content given for each; changes that cannot be made (missing or existing names, illegal or conflicting paths, content paths outside the new version) are refused without effect; the difference from the previous version is reported exactly; nothing is written before the version is; and content that is no longer needed is not stored. A version is made under abort_if_no_difference exactly when there is a difference.",
     ["histories", "inputs", "configurations"],
     "All sequences of operations over overlapping names and contents, on objects with one or two earlier versions, with all settings.",
     "The interplay of state, manifest and files to copy depends on the order of operations and on repeated content; tests use one short sequence.",
     ["ocfl/new_version.py", "ocfl/inventory.py", "ocfl/object.py"],
     [("NewVersion.add, delete, rename, diff_with_previous", "ocfl/new_version.py"), ("Version.delete_logical_path", "ocfl/inventory.py"), ("Object.start_new_version, write_new_version", "ocfl/object.py")],
     "non-trivial: at least two operations took effect",
     "model-based testing: generated operation sequences against a model of the version state")

prop("C06", "Content is stored as often as the settings ask, at paths from the source",
     "With forward delta, content already held by an earlier version is not stored again; with deduplication, content that occurs several times in a version is stored once; without them it is stored as many times as it occurs. No other content is stored. Content paths lie in the version's content directory and come from a source path of that content by the chosen normalization (none, URI escaping, MD5).",
     ["inputs", "histories", "configurations"],
     "All generated histories with repeated content, all settings (also changing between versions).",
     "The decision depends on what is in the manifest already, so on the whole history; tests look at single fixtures.",
     ["ocfl/new_version.py", "ocfl/object.py"],
     [("NewVersion.add, _map_filepath", "ocfl/new_version.py"), ("make_unused_filepath", "ocfl/object_utils.py")],
     "non-trivial: content that occurs more than once in a version or in successive versions",
     "generated histories, with the number and place of stored copies predicted by a model")

prop("C07", "A dry run writes nothing and predicts the real result exactly",
     "Creating or building without an object directory writes nothing and returns exactly the inventory that the real operation then returns and stores; repeating an operation elsewhere gives a byte-identical object; the zero-padding of source version directories does not matter.",
     ["inputs", "configurations"],
     "All generated sources, metadata and settings.",
     "It relates two runs over every input; tests compare fixed output.",
     ["ocfl/object.py", "ocfl/inventory.py"],
     [("Object.create, Object.build", "ocfl/object.py"), ("Object.write_inventory_and_sidecar", "ocfl/object.py")],
     "non-trivial: at least one source file",
     "metamorphic relation between dry run, real run and repeated run of generated cases")

prop("C08", "Changing the digest algorithm keeps all content and all checks",
     "When a new version uses another digest algorithm, the object is valid, every version has the same content as before, the root inventory, its only sidecar and the new version's inventory use the new algorithm, earlier version inventories keep theirs, every manifest digest is right, and the former digests are kept as correct fixity information. Damage done to content beforehand is not taken for good: either the change is refused and nothing changes, or validation still finds the damage; copies that are no longer the same, or files that have become the same, are never given one digest.",
     ["histories", "configurations"],
     "All sequences of algorithm changes (also back and forth, and lax algorithms) over generated histories, by each route of updating.",
     "There is no test of repeated changes; errors show only with duplicate content, several versions or particular algorithm pairs.",
     ["ocfl/object.py", "ocfl/inventory.py", "ocfl/digest.py"],
     [("Object.start_new_version", "ocfl/object.py"), ("Object.write_new_version", "ocfl/object.py")],
     "non-trivial: at least one change of algorithm and some content",
     "generated update histories with algorithm changes, checked by an independent validator and invariants")

prop("C09", "Reading never alters an object, and extraction stays in its destination",
     "No reading operation (validation, tree, inventory parsing, extraction, starting a version that is not written) alters any file of the object. Extraction writes exactly the requested content, only inside a destination that is new or empty (a single file only if its name is not taken), however the destination is spelled; otherwise it is refused and nothing changes. Objects whose inventories name paths that lead elsewhere are refused: nothing is read or written outside.",
     ["inputs", "configurations"],
     "All kinds of destination, all reading operations on independently generated objects, and objects with hostile logical and content paths.",
     "Safety against hostile paths and existing data is about all inputs; tests use well-behaved ones.",
     ["ocfl/object.py", "ocfl/inventory_validator.py", "ocfl/fsw.py"],
     [("Object.extract, extract_file, _extract_setup", "ocfl/object.py"), ("Object.parse_inventory", "ocfl/object.py"), ("InventoryValidator path checks", "ocfl/inventory_validator.py")],
     "non-trivial: content to extract, or a hostile path",
     "generated objects, destinations and hostile inventories with snapshots of everything around them (invariant)")

prop("C17", "A storage root holds exactly the objects added, found by identifier",
     "After any sequence of additions to a storage root, each object accepted is stored, byte for byte, at the path the layout gives for its identifier, nothing else in the root has changed, listing gives exactly the accepted objects with their identifiers, object_path finds each, and the root and all its objects are valid. An addition that cannot be made (identifier in use or not usable in the layout, path reserved by the storage root or inside another object, a specification version higher than that of the root, an object that cannot be read) is refused with StorageRootException and leaves the storage root exactly as it was, as does one that fails half way.",
     ["histories", "inputs", "configurations"],
     "All sequences of additions of valid and unusable objects with all kinds of identifiers, under every layout with all its parameters, with the same StorageRoot instance or a new one each time.",
     "The tests add one or two objects with ordinary identifiers to one kind of root; collisions, nesting and half-made additions depend on pairs of identifiers and on faults.",
     ["ocfl/storage_root.py", "ocfl/layout.py", "ocfl/fsw.py"],
     [("StorageRoot.add, list_objects, object_path", "ocfl/storage_root.py"), ("fsw_copydir", "ocfl/fsw.py")],
     "non-trivial: at least two objects were accepted in one history",
     "model-based histories of additions to a storage root compared with a dictionary model after every step")

prop("C18", "Layouts map identifiers to paths as specified, safely and without collision",
     "For every identifier and every set of allowed parameters, each storage layout gives the path its specification defines: the flat direct layout the identifier itself; 0003 the tuples of the lower case digest of the UTF-8 identifier and the percent-encoded identifier, cut at 100 characters and followed by the digest when longer; flat quoted the URL-quoted identifier; tuple tree the pairtree-encoded identifier cut in tuples, then whole; UUID quadtree the hexadecimal digits in fours. Paths are relative, without empty, '.' or '..' elements, the same on every call and instance, and different for different identifiers; identifiers a layout cannot represent are refused with LayoutException. Parameters are accepted exactly if their extension allows them, and a path is made relative to a root exactly if it is inside it.",
     ["inputs", "configurations"],
     "All identifiers (any characters but lone surrogates, any length) and all parameter values, right and wrong, for all five layouts and their aliases.",
     "The mapping is a function over all strings and all parameters; tests sample a few identifiers for each.",
     ["ocfl/layout.py", "ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/layout_registry.py"],
     [("identifier_to_path of each layout", "ocfl/layout_0003_hash_and_id_n_tuple.py"), ("check_and_set_layout_params", "ocfl/layout.py")],
     "non-trivial: at least two identifiers mapped with at least one that is not plain alphanumeric; for parameters: a layout with parameters given a dictionary; for roots: path and root not empty",
     "generated identifiers and parameters compared with reference formulas written from the layout specifications, and pairwise for collisions")

prop("C19", "A storage root's declared layout and version govern every later use",
     "Initializing a storage root with any layout, parameters and specification version writes a valid, empty storage root declaring exactly those; whenever it is opened again, also by someone asking for another layout, identifiers map to paths by the declared layout and parameters, and the declared version is the one reported. An ocfl_layout.json or extension configuration made elsewhere is honored if good and otherwise reported with its own error code by validation and by StorageRootException in other operations. Initialization that cannot be done as asked (bad parameters, unknown layout or version, existing target, no parent directory) raises StorageRootException and creates nothing.",
     ["inputs", "configurations", "histories"],
     "All layouts, aliases, parameter sets and versions; all combinations of good, missing and malformed layout declaration and configuration.",
     "Tests create roots with default parameters and mostly look at them with the instance that made them.",
     ["ocfl/storage_root.py", "ocfl/layout.py", "ocfl/layout_registry.py"],
     [("StorageRoot.initialize, check_root_structure, parse_layout_file", "ocfl/storage_root.py"), ("read_layout_params, write_layout_params", "ocfl/layout.py")],
     "non-trivial: a root created with parameters other than the defaults; for roots made elsewhere: one with a layout declaration",
     "round trip of generated configurations through a storage root, and generated root declarations judged against a model")

prop("C20", "Storage root validation finds every fault of the hierarchy and objects",
     "Validating a storage root says valid exactly if its declaration and layout are right, nothing in its hierarchy breaks the rules (files outside objects, empty directories, several or unknown object declarations, objects of a higher version than the root, files in the extensions directory) and, when objects are validated, all its objects are valid; it reports each kind of fault with its own code, counts objects and good objects exactly, names each invalid object up to max_errors, gives the same result when run again and for zip files, and changes nothing. Listing yields exactly the objects of the hierarchy, whatever state the others are in.",
     ["inputs", "configurations"],
     "All small hierarchies composed of valid objects, invalid objects and each kind of misplaced or malformed entry, with all kinds of root declaration and extensions directory.",
     "There are four fixtures of bad storage roots; the verdict has to be right for every combination and every place in the hierarchy.",
     ["ocfl/storage_root.py", "ocfl/namaste.py", "ocfl/validation_logger.py"],
     [("StorageRoot.validate, object_paths, validate_hierarchy, validate_extensions_dir", "ocfl/storage_root.py"), ("find_namastes", "ocfl/namaste.py")],
     "non-trivial: a root with good structure holding at least two objects or faults",
     "generated storage root hierarchies with the expected verdict, codes and counts computed from how they were made")

prop("C16", "An object's specification version is kept, raised only on request, and judged by",
     "A new version keeps the specification version of the object unless a supported higher one is requested; then declaration, inventory type and validation all change to it together, earlier versions keep theirs, and exactly one declaration remains. Requests for lower or unsupported versions are refused and change nothing. Validation judges each object by the specification version it declares, or by the one forced by force_spec_version, applying exactly the rules of that version, and says which it used.",
     ["histories", "configurations", "inputs"],
     "All sequences of updates with and without requests for versions, by each route, and objects of either version with features allowed, required or forbidden in one of them, validated with and without forcing.",
     "Tests keep to one version at a time; declaration, inventory type, sidecar and rules applied can disagree only after histories in which the version changes.",
     ["ocfl/object.py", "ocfl/inventory.py", "ocfl/validator.py", "ocfl/inventory_validator.py"],
     [("Object.start_new_version, write_new_version", "ocfl/object.py"), ("Validator.validate_object", "ocfl/validator.py"), ("InventoryValidator.validate", "ocfl/inventory_validator.py")],
     "non-trivial: a version change is requested in the history; for validation: a forced version that differs from the declared one, or an object with a version dependent feature or fault",
     "generated update histories and objects with version dependent features, judged against a table of the rules of each specification version")

prop("C21", "Digests are those of the named algorithm, whatever the content and its place",
     "file_digest and string_digest give the digest of exactly the bytes of the file or the UTF-8 encoded string by the named algorithm, in normalized form, for every length of content and every file system and way of naming the file; digest_regex matches exactly the well-formed digests of the algorithm, and normalized_digest makes two digests equal exactly if they stand for the same value. Unknown algorithms are refused with ValueError.",
     ["inputs"],
     "All contents, with lengths at and around block boundaries, all algorithms, local, rooted, in-memory and zip file systems, relative and absolute paths, and well- and malformed digest values.",
     "Tests digest a few small files that fit in one block, from one directory of a local file system.",
     ["ocfl/digest.py", "ocfl/fsw.py"],
     [("file_digest, string_digest, normalized_digest, digest_regex", "ocfl/digest.py"), ("fsw_openfile", "ocfl/fsw.py")],
     "non-trivial: content that is not empty; for digest values: a value not in normalized form",
     "generated content and digest values compared with hashlib used directly (differential)")

prop("C22", "Datetimes are read and written as W3C datetimes without loss",
     "datetime_to_str writes any time as a W3C datetime that str_to_datetime reads back as the same time, with fractions of seconds unless told otherwise; str_to_datetime accepts exactly the W3C datetime forms that it documents, with real dates only, gives the right time for each, and refuses everything else with ValueError.",
     ["inputs"],
     "All times from year 1 to 9999 with and without fractions, all forms of W3C datetimes with all offsets, and strings that are almost datetimes.",
     "Tests sample some tens of strings; calendars, fractions and near misses of the syntax are about all of them.",
     ["ocfl/w3c_datetime.py"],
     [("datetime_to_str, str_to_datetime", "ocfl/w3c_datetime.py")],
     "non-trivial: a string that is refused, or that has a fraction, an offset or only a date; for writing: a time with a fraction",
     "generated datetimes compared with an independent parser and integer calendar arithmetic, and round trips",
     note="Random search over generated cases. The reversed timezone offset of str_to_datetime is a known finding pinned by the test suite; anything else is reported.")

prop("C23", "An inventory read or edited in memory says exactly what its data says",
     "The Inventory, Version and VersionMetadata classes report for any inventory exactly what its JSON data holds (identifier, algorithm, head, versions in order, metadata, state, manifest, content and logical paths and the mappings between them), never alter or share the data supplied, and write it as JSON without loss. After any sequence of edits (versions, files and manifest entries added and deleted, normalization) the inventory equals a simple model of the same edits; an edit that cannot be made is refused and leaves it unchanged.",
     ["inputs", "histories"],
     "All generated inventories (also partial ones) and all sequences of edits, including duplicates, shared digests, deletions and additions of the same path.",
     "Tests look at a few attributes of a few inventories; the views must agree with one another after any history of edits.",
     ["ocfl/inventory.py", "ocfl/version_metadata.py", "ocfl/object_utils.py"],
     [("Inventory, Version", "ocfl/inventory.py"), ("VersionMetadata", "ocfl/version_metadata.py"), ("next_version_directory, make_unused_filepath and others", "ocfl/object_utils.py")],
     "non-trivial: an inventory with at least two versions and content; for edits: at least three changes over at least two versions",
     "model-based histories of edits, and generated inventories compared with a direct reading of their data")

prop("C24", "Stored trees are the same whatever file system they are on",
     "Opening a storage location, walking it, listing it, comparing files, copying files and copying directories do exactly what their descriptions say for every tree of files and every kind of storage supported offline (local paths, file:// URLs, in-memory, zip archives, temporary directories): every file is found once, copies are byte-identical and complete, nothing outside the destination is written, the source is never changed, comparison is equality of bytes, and a location that does not exist, exists already, or is unusable is refused as described instead of being created or opened.",
     ["inputs", "configurations"],
     "All trees, contents (also larger than the buffer and differing in a single byte anywhere), starting directories, pairs of source and destination file systems, and forms of the address.",
     "Tests copy and open one or two fixture directories on the local disk; a difference at a buffer boundary, below a start directory or on one kind of storage is only seen by trying many trees on all of them.",
     ["ocfl/fsw.py"],
     [("fsw_openfs, fsw_opendir_as_fs, fsw_openfile, fsw_readtext", "ocfl/fsw.py"), ("fsw_walk, fsw_walk_files, fsw_listdir_names", "ocfl/fsw.py"), ("fsw_copyfile, fsw_copydir, fsw_files_identical", "ocfl/fsw.py")],
     "non-trivial: for trees, at least two files below the start of the walk or a start other than the root; for open, a local directory is opened, created or refused",
     "generated trees and addresses on local, in-memory and zip file systems, compared with a plain dictionary model (differential)")

prop("C25", "Declarations say what kind of thing a directory is",
     "A Namaste declaration that is written is found again with the same tag, value and exact content, on every kind of storage; all declarations in a directory are found, only those of the tag asked for and no other files; the content of a declaration is accepted only if it is exactly what is specified; and the type of a path (object, storage root, inventory, other) is told from its declarations alone, for any number of them and any other entries.",
     ["inputs"],
     "All tags, values, contents and sets of directory entries, including names that nearly are declarations, directories with such names, and many declarations.",
     "Tests check a few fixed names; whether a near miss is taken for a declaration depends on the exact name and content.",
     ["ocfl/namaste.py", "ocfl/object_utils.py"],
     [("Namaste.write / content_ok / check_content, find_namastes", "ocfl/namaste.py"), ("find_path_type", "ocfl/object_utils.py")],
     "non-trivial: at least two entries, of which one is a declaration of the tag asked for",
     "generated directories of declarations and near misses compared with a direct reading of the naming rule, and write/read round trips")

prop("C26", "Versions survive the way through a bag",
     "A version extracted as a BagIt bag is a valid bag whose payload is exactly the content of that version and whose bag-info carries the identifier and metadata of the version; making or updating an object from a bag stores exactly the payload with the metadata and identifier given there; a bag that is damaged, or that has another identifier than the one given for a new object, is refused with nothing written; and a bag made from one object and added to another gives a version with the same content and metadata.",
     ["inputs", "histories"],
     "All contents and metadata of versions, all damage to a bag (payload, manifests, declaration), all choices of metadata on the call and in the bag.",
     "Tests use two fixed bags; payload names, tag values and their combination with metadata given on the call are inputs with many cases.",
     ["ocfl/bagger.py", "ocfl/object.py"],
     [("bag_as_source, bag_extracted_version", "ocfl/bagger.py"), ("create, add_version_with_content and extract with bags", "ocfl/command_line_utils.py")],
     "non-trivial: at least two files in the payload; a bag that must be refused or that has metadata; at least two versions from bags or an identifier that must be refused",
     "generated objects extracted as bags and read back (round trip), judged by the bagit library and a direct reading of the files")

prop("C27", "The command line tools do what the library does, and say so in their exit status",
     "For any arguments the commands of ocfl-object, ocfl-root, ocfl-validate and ocfl-sidecar have the same effect on disk as the corresponding library call and nothing more, report the result that the library has for every path, and exit with status 0 exactly if what was asked for was done (for validation: if everything named is valid). Nonsense arguments are refused with nothing changed, and no input ends in an internal error that leaves anything half done.",
     ["inputs", "configurations", "histories"],
     "All histories written with the commands, all combinations of objects, storage roots, inventories and other paths, damaged or not, all option combinations that are described.",
     "Tests run each command a few times with fixed fixtures and look at some of the text that is printed; the exit status and the combinations of several paths are not looked at.",
     ["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py", "ocfl/command_line_utils.py"],
     [("commands of ocfl-object", "ocfl-object.py"), ("commands of ocfl-root", "ocfl-root.py"), ("ocfl-validate", "ocfl-validate.py"), ("ocfl-sidecar", "ocfl-sidecar.py")],
     "non-trivial: a history of at least two versions with content; some of the paths to be validated are damaged; at least one object in the storage root; a sidecar missing or wrong",
     "generated command lines run on generated objects and compared with library calls (differential), with exit status and files on disk as the outcome")

prop("C28", "A validation report says everything that is wrong, where, and under which rule",
     "For any object or inventory, every message of a validation has a code, a complete text, and a link to the rule of the specification it is reported under; counts, codes and result agree with the messages; independent faults in one object, or in one storage root, are all reported, each message naming the file or directory and the digests concerned, and no file that is as it was is blamed; choosing errors or warnings only, or another language, changes which messages are kept or their language and nothing else.",
     ["inputs", "configurations"],
     "All combinations of up to six independent faults in all generated objects, generated storage roots with faults of structure, hierarchy and objects, arbitrary edits of inventories and files, and all tables of messages with their parameters and languages.",
     "Tests look for the code of a single fault in fixtures; that a second fault is not hidden by the first and that the right file is named depends on combinations.",
     ["ocfl/validation_logger.py", "ocfl/validator.py", "ocfl/inventory_validator.py"],
     [("ValidationLogger", "ocfl/validation_logger.py"), ("Validator.validate_object and others", "ocfl/validator.py"), ("InventoryValidator", "ocfl/inventory_validator.py")],
     "non-trivial: at least two independent faults; for arbitrary edits and storage roots: some error is reported; for the logger: at least two messages kept",
     "generated objects with several planted faults, each of which has to turn up in the report with its path and digests (oracle by construction); invariants over reports of arbitrary inputs; model of the logger")

prop("C29", "What an operation does never depends on what was done before",
     "The outcome of an operation (result, messages and counts, error, files written) depends only on its arguments, the settings given and what is stored: it is the same with an Object kept for one object, a StorageRoot kept for one storage root, or a Validator kept for any number of objects, as with new ones, whatever was done with them before, including operations that failed or were abandoned and changes made by others in between; and metadata and lists given by the caller are left as they were.",
     ["histories", "inputs"],
     "All sequences of up to a dozen operations on one or two objects or a storage root, and of validations of valid and invalid objects, with outside changes in between.",
     "Tests use new instances for nearly every call; what an instance remembers shows only in sequences of operations.",
     ["ocfl/object.py", "ocfl/storage_root.py", "ocfl/validator.py", "ocfl/fsw.py"],
     [("Object", "ocfl/object.py"), ("StorageRoot", "ocfl/storage_root.py"), ("Validator.validate_object", "ocfl/validator.py"), ("fsw_openfs", "ocfl/fsw.py")],
     "non-trivial: at least three operations of the sequence did not raise; for validators: valid and invalid objects in turn",
     "metamorphic: the same generated sequence of operations is run with kept and with new instances in two scratch directories, and every result and tree compared")

prop("C30", "Operations work the same wherever things are and however the place is named",
     "Creating, building, updating, changing, extracting, validating and adding to storage roots have the same results and make the same files whatever kind of storage holds the object, the storage root and the source (local directory, memory, zip archive to read from), whatever characters their path has, and whether it is given as absolute or relative path, with . or .. or doubled or trailing slashes, or as file:// URL; nothing is made anywhere else, and sources stay as they are. The command line tools say the same too, also for storage roots in zip archives.",
     ["inputs", "histories", "environment"],
     "All sequences of up to seven operations on an object, and additions to and uses of storage roots, with the library and the command line tools, for all combinations of spellings and kinds of storage for the places involved, and places with special characters in their names.",
     "Tests use a few temporary directories and fixture paths, relative to the repository, nearly always local.",
     ["ocfl/object.py", "ocfl/storage_root.py", "ocfl/fsw.py", "ocfl/new_version.py"],
     [("fsw_openfs", "ocfl/fsw.py"), ("Object.open_obj_fs", "ocfl/object.py"), ("Object.extract", "ocfl/object.py"), ("StorageRoot", "ocfl/storage_root.py")],
     "non-trivial: at least three operations were done, and not only with plain paths",
     "metamorphic: the same generated sequence of operations is run with plain absolute local paths and with generated places and names, and every result and tree compared")

prop("C31", "Every fixity digest counts, and lax digests weaken no check",
     "An object is valid exactly if every digest of a known algorithm that a fixity block (of the root inventory or of an earlier version's) gives for a file is right, whatever other digests and algorithms the blocks hold, and each wrong one is reported. Fixity of an unknown algorithm makes an object invalid, or with lax digests allowed changes nothing else. With lax digests objects using any known digest algorithm are valid, can be extracted, listed and added to storage roots, and damage to them is detected as otherwise; without, they are invalid, and refused by storage roots if their root inventory uses one.",
     ["inputs"],
     "All fixity blocks in all inventories of generated objects; all objects with any mix of known digest algorithms in their inventories, sound or damaged in any way, by every route of validation.",
     "Tests use a few fixture objects with one fixity block and one algorithm each.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/digest.py", "ocfl/object.py", "ocfl/storage_root.py"],
     [("Validator.check_additional_digests", "ocfl/validator.py"), ("Validator.validate_content", "ocfl/validator.py"), ("InventoryValidator._validate_fixity", "ocfl/inventory_validator.py"), ("digest_regex", "ocfl/digest.py")],
     "non-trivial: a fixity block with entries, or an algorithm that only lax digests allow",
     "differential: verdict and reports against the digests computed by the reference for generated fixity blocks and damaged objects")
