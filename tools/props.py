"""Writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX, FE = "exploration", "fault_enumeration"
P = []


def prop(id, title, statement, over, text, why, files, mech, obs, tech, note, level=EX, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, tech, level, note))


prop("C01", "Every stored version reads back exactly as it was supplied",
     "For every object created from a source directory, built from a series of version directories, or updated any number of times, extracting any version (by name, or as head) yields "
     "exactly the files supplied for that version, same relative paths and same bytes, and nothing else. The created date, message, user name and address recorded for each version are "
     "those supplied for it. Extracting a single file gives the same bytes as extracting the whole version.",
     ["inputs", "histories", "configurations"],
     "Every sequence of version contents (empty, duplicated, renamed, deleted, resurrected, swapped files; any legal file name; sizes around internal buffer sizes), every version metadata, and every "
     "combination of digest algorithm, content directory, path normalization, deduplication, forward delta, specification version and fixity setting.",
     "Tests build a few fixed fixture histories with default options and compare selected inventory fields; they never compare all bytes of all versions over option combinations.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py", "ocfl/version_metadata.py", "ocfl/digest.py", "ocfl/fsw.py"],
     [("create, build and add version entry points", "ocfl/object.py: create, build, add_version_with_content, start_new_version, write_new_version"),
      ("assignment of content to content paths", "ocfl/new_version.py: add, add_from_srcdir"),
      ("extraction", "ocfl/object.py: extract, extract_file, _extract_version_files")],
     ["return value and destination directory of extract / extract_file", "version metadata in the stored inventory"],
     "runtime monitoring: round-trip oracle over generated version histories",
     "Reference model is the generated history itself; every version of every generated object is extracted and compared byte for byte. Random exploration, no exhaustive claim.")

prop("C02", "Everything the library writes is a conforming object with the requested settings",
     "Every object written or updated by the library conforms to the OCFL specification version it declares: declaration, inventories, sidecar digests, version directories, content files and manifest all agree. "
     "The stored inventory carries exactly the requested identifier, specification version, digest algorithm, content directory and fixity algorithms, and each fixity and manifest digest is the true digest of its file. "
     "The library's own validation accepts what it wrote.",
     ["inputs", "histories", "configurations"],
     "Every history of creates and updates, every supported configuration including a change of digest algorithm, fixity types or specification version between versions.",
     "Tests check that a handful of built fixtures validate with the library's own validator, which shares code and misconceptions with the writer.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py", "ocfl/digest.py", "ocfl/namaste.py"],
     [("inventory and sidecar writing", "ocfl/object.py: write_inventory_and_sidecar, write_object_declaration"),
      ("manifest, state and fixity construction", "ocfl/new_version.py, ocfl/inventory.py"),
      ("digest migration", "ocfl/object.py: start_new_version")],
     ["files on disk after each write", "library validation verdict"],
     "runtime monitoring: independent conformance checker run over every written object",
     "Oracle is a separately written specification checker (vf/oracle.py) using hashlib only. Random exploration.")

prop("C03", "Adding a version never changes earlier versions or the source",
     "Creating, building or updating an object never changes, deletes or rewrites any file inside the version directories that already exist, and never modifies the source files or the metadata objects passed in. "
     "An update adds one new version directory and otherwise replaces only the root inventory and its sidecar.",
     ["histories", "inputs", "configurations"],
     "Every history of updates under every configuration, by every update entry point, including metadata-only updates.",
     "No test compares the object's earlier version directories before and after an update.",
     ["ocfl/object.py", "ocfl/new_version.py"],
     [("new version written into its own directory", "ocfl/object.py: write_new_version"),
      ("inventory copied for the next version", "ocfl/new_version.py: next_version")],
     ["recorded file-system events during the operation", "byte snapshots before and after"],
     "runtime monitoring: audit-hook trace of file-system events plus before/after snapshots",
     "Every open-for-write, mkdir, rename and remove made by the process is seen by a Python audit hook and checked against the set of paths an update may touch.")

prop("C04", "A failed or interrupted write never passes for a complete one",
     "If any single file-system operation fails while an object is created, built, updated or extracted, the call raises an error rather than returning success. "
     "Wherever an update fails or the process dies, every file of the earlier versions is intact and every earlier version can still be recovered from the earlier inventories, and the object on disk is either exactly the old object, "
     "exactly the new object, or one that validation rejects. The root inventory is replaced only after the content and inventory of the new version have been written.",
     ["crash_points", "fault_sequences", "histories"],
     "Every mutating file-system operation of a create, build, update or extract, failing with an I/O error, with a short write, or with process death.",
     "No test injects a fault or kills the process.",
     ["ocfl/object.py", "ocfl/fsw.py", "ocfl/new_version.py"],
     [("order of writes for a new version", "ocfl/object.py: write_new_version, write_inventory_and_sidecar"),
      ("file copy", "ocfl/fsw.py: fsw_copyfile")],
     ["exceptions at the API", "directory tree after failure or death", "validation verdict of that tree"],
     "runtime monitoring with fault injection at every file-system event (audit hook, process death, RLIMIT_FSIZE)",
     "For each generated operation every mutating event is enumerated (bounded per case) and one run made per event and fault kind; event-granular, so torn single writes are only covered through RLIMIT_FSIZE. Loss of written data by the operating system (no fsync) is out of scope.",
     level=FE)

prop("C05", "Refused operations are reported and leave storage untouched",
     "An operation that cannot be carried out correctly (identifier missing, destination object or directory already in use, source missing, gap or zero padding in the version directories to build from, object to update structurally invalid, object to extract from without a valid inventory, "
     "unknown version or logical path, specification version lowered, version metadata that no valid inventory can hold, unsupported digest or fixity algorithm) is refused with an exception. A refusal leaves existing objects, sources and destinations byte for byte as they were, "
     "and leaves no new object behind.",
     ["inputs", "histories", "configurations"],
     "Every refusal reason combined with generated objects, destinations and options.",
     "Tests assert that a few of these raise, none checks that storage is unchanged afterwards.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/fsw.py", "ocfl/object_utils.py"],
     [("precondition checks", "ocfl/object.py: open_obj_fs, create, build, start_new_version, extract, extract_file"),
      ("specification version check", "ocfl/new_version.py: next_version")],
     ["exception raised", "byte snapshots before and after", "file-system event trace"],
     "runtime monitoring: refusal oracle with byte snapshots and event trace",
     "Catalogue of refusal reasons applied to generated objects; random exploration of the rest.")

prop("C06", "Content is stored under the chosen deduplication and path strategy",
     "Content that an earlier version already holds is stored again by a new version only if forward delta is off; whatever content the new version does store is kept once if deduplication is on, and once for each logical path if it is off. "
     "Content paths lie in the content directory of the new version and follow the chosen normalization, never collide, and the files on disk are exactly those in the manifest.",
     ["inputs", "histories", "configurations"],
     "Every history of contents with duplicates within and across versions, every combination of deduplication, forward delta and normalization, every legal name including ones whose normalized forms could collide.",
     "Tests check the count of files for a few fixtures; name collisions after normalization are sampled once.",
     ["ocfl/new_version.py", "ocfl/object.py", "ocfl/inventory.py"],
     [("deduplication and forward delta", "ocfl/new_version.py: add"),
      ("content path mapping", "ocfl/new_version.py: _map_filepath; ocfl/object_utils.py: remove_first_directory, make_unused_filepath")],
     ["manifest of the stored inventory", "files on disk"],
     "runtime monitoring: storage model compared with disk and manifest",
     "Model of expected copies per content and of the path normalizations, evaluated for every generated history.")

prop("C07", "Validation accepts every conforming object",
     "Every object that conforms to OCFL 1.0 or 1.1 is reported valid with no error, whatever software wrote it, and the declared specification version is reported. "
     "An object that also follows every recommendation produces no warning.",
     ["inputs", "histories", "configurations"],
     "All conforming objects: any identifiers, names, version numbers including zero-padded, digest algorithms and their change over time, digest letter case, redundant copies, missing version inventories, fixity blocks, "
     "extensions, logs and inventory formatting.",
     "Tests validate a fixed fixture set; combinations of legal features never meet.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/validation_logger.py", "ocfl/digest.py"],
     [("object validation", "ocfl/validator.py: validate_object"), ("inventory validation", "ocfl/inventory_validator.py: validate")],
     ["validation verdict and logged codes"],
     "runtime monitoring: acceptance oracle over independently written objects",
     "Objects come from a writer that shares no code with the library and are cross-checked by an independent checker.")

prop("C08", "Validation detects every corruption of a stored object",
     "If in a valid object any content file is changed, removed, moved or added, any inventory, sidecar or declaration is altered or missing, any recorded digest is wrong, or any unexpected file, empty directory or version directory appears, "
     "validation reports the object invalid with at least one error naming that kind of fault. Structural damage is reported even when content digests are not checked, and whether or not messages are logged.",
     ["inputs", "fault_sequences", "histories"],
     "Every single corruption at every place of generated conforming objects.",
     "Each fixture carries one hand-made fault in one place of a minimal object.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/digest.py"],
     [("content and digest checks", "ocfl/validator.py: validate_content, validate_inventory_digest"),
      ("structure checks", "ocfl/validator.py: validate_object_root, validate_version_inventories")],
     ["validation verdict and logged codes"],
     "runtime monitoring: corruption injection with detection oracle",
     "Mutation catalogue applied to generated objects; each must be detected with an error from the right family. Extension and log directories are outside the guarantee.")

prop("C09", "Inventories that break a specification rule are rejected with that rule's code",
     "An inventory that breaks any one rule of the specification (missing or mistyped keys, bad identifiers, version numbering, dates, digests, paths, duplicate or conflicting paths, state not covered by the manifest, fixity) is rejected, "
     "with the error code of the rule it breaks. An inventory that breaks none is accepted.",
     ["inputs"],
     "Every rule, broken at every position of generated inventories for both specification versions, and random structural mutations of inventories.",
     "One fixture per code, in a minimal inventory with one version.",
     ["ocfl/inventory_validator.py", "ocfl/w3c_datetime.py", "ocfl/digest.py", "ocfl/data/validation-errors.json"],
     [("inventory rules", "ocfl/inventory_validator.py: validate and the validate_* methods")],
     ["verdict of inventory validation", "logged codes"],
     "runtime monitoring: rule catalogue and differential comparison with an independent rule checker",
     "Independent checker (vf/oracle.py) states which rules are broken; ambiguous inventories are skipped.")

prop("C10", "Inconsistency between the inventories of one object is detected",
     "An object whose earlier version inventories disagree with the root inventory is rejected: different identifier, content directory, versions, logical state or content of a version, manifest entries missing later, a specification version that decreases, "
     "or a head version inventory that is not identical to the root inventory. Differences in version metadata alone give a warning, not an error.",
     ["inputs", "histories"],
     "Every kind of disagreement, between any version inventory and the root, with consistent sidecars, for all combinations of digest algorithms and digest letter case.",
     "Few fixtures with two or three versions and one algorithm.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py"],
     [("comparison of prior inventories", "ocfl/validator.py: validate_version_inventories; ocfl/inventory_validator.py: validate_as_prior_version, compare_states_for_version")],
     ["validation verdict and logged codes"],
     "runtime monitoring: history tampering with detection oracle",
     "Tampered histories are re-digested so that only the cross-version rule can catch them.")

prop("C11", "Validation always gives a verdict, never raises, and never writes",
     "Whatever files and bytes it is pointed at, validating an object, a standalone inventory or a storage root returns a verdict in finite time instead of raising. "
     "It writes nothing at all, and one validator used again gives the same answer as a fresh one.",
     ["inputs", "fault_sequences"],
     "Arbitrary directory trees, arbitrary bytes and arbitrary JSON in every place a validator looks.",
     "Tests feed well-formed fixtures.",
     ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/storage_root.py", "ocfl/inventory.py"],
     [("validation entry points", "ocfl/object.py: validate, validate_inventory; ocfl/validator.py: validate_object"),
      ("state reset", "ocfl/validator.py: initialize")],
     ["exceptions", "file-system events", "verdict and codes on reuse"],
     "runtime monitoring: structure-aware fuzzing with totality, no-write and reuse monitors",
     "Any exception, write event or differing verdict on reuse is a violation.")

prop("C12", "The verdict does not depend on where or how the object is looked at",
     "The same object gets the same verdict and the same error codes from a directory, a zip file or an in-memory file system, with warnings and errors logged or not, and however its inventory JSON is formatted. "
     "Skipping content digests never adds an error and loses only those about digests and sidecars, and allowing non-standard digests never rejects what was accepted without.",
     ["inputs", "configurations"],
     "Valid and damaged objects, all back ends available offline, all logging and checking options, equivalent JSON encodings.",
     "Tests use one back end and one option set per fixture.",
     ["ocfl/validator.py", "ocfl/fsw.py", "ocfl/validation_logger.py", "ocfl/object.py"],
     [("file-system wrapper", "ocfl/fsw.py"), ("log settings", "ocfl/validation_logger.py: log")],
     ["verdict and codes for each variant"],
     "runtime monitoring: metamorphic comparison of verdicts",
     "Metamorphic: no absolute oracle needed. The S3 back end cannot run offline.")

prop("C13", "Storage layouts map identifiers to safe, distinct, specified paths",
     "Every storage layout maps an identifier to one path, the same on every call, that stays inside the storage root, and different identifiers get different paths that are not inside one another; an identifier the layout cannot place is refused. "
     "The flat direct and hashed n-tuple layouts produce exactly the paths their published specifications define for every configuration, and configurations that these forbid are refused.",
     ["inputs", "configurations"],
     "Every identifier string (unicode, dots, separators, percent, very long, reserved names) and every layout configuration.",
     "Tests check the examples printed in the layout specifications.",
     ["ocfl/layout.py", "ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/layout_registry.py"],
     [("identifier to path", "identifier_to_path of each layout"), ("configuration checks", "ocfl/layout.py: check_and_set_layout_params")],
     ["path returned or exception"],
     "runtime monitoring: reference implementations of the published layouts and pairwise path invariants",
     "Independent implementations written from the layout specifications. Tuple-tree paths may nest by design and are excepted from non-nesting; adding such an object is refused (C14).")

prop("C14", "A storage root always lists exactly the objects added to it",
     "A new storage root is valid and empty; after any sequence of additions it lists exactly the identifiers added, each once, at the path its layout gives, and each stored object is identical to the one supplied. "
     "Reopening the root uses the layout and parameters it was created with. Adding an identifier or path already in use, a directory without the declaration and a valid inventory of an object, an object of a later specification version than the root, or an object that would lie inside another or in the reserved extensions directory is refused and changes nothing.",
     ["histories", "inputs", "configurations"],
     "Every sequence of create, add and list operations over all layouts, parameters and identifiers.",
     "Tests add two fixture objects to two roots.",
     ["ocfl/storage_root.py", "ocfl/layout.py", "ocfl/layout_registry.py", "ocfl/fsw.py"],
     [("creation and layout file", "ocfl/storage_root.py: initialize, check_root_structure"), ("addition", "ocfl/storage_root.py: add"), ("listing", "ocfl/storage_root.py: object_paths, list_objects")],
     ["list of (path, identifier)", "stored bytes", "validation verdict of the root"],
     "runtime monitoring: model-based test of root lifecycle with snapshots",
     "Model is the set of added objects. Symbolic links and concurrent writers are out of scope.")

prop("C15", "Storage root validation reports exactly the faults present",
     "Validating a storage root reports it valid exactly when its declaration and layout files are well formed, the hierarchy holds only objects, intermediate directories and an extensions directory, no directory is empty, and every object in it is valid; "
     "each fault is reported with its own code. The numbers of objects checked and found valid are exact, and validating again gives the same result.",
     ["inputs", "histories", "fault_sequences"],
     "Roots with any mix of valid objects, invalid objects, stray files, empty directories, bad declarations, bad layout and extension files at any depth.",
     "Few fixtures, each with one fault.",
     ["ocfl/storage_root.py", "ocfl/namaste.py", "ocfl/layout.py"],
     [("root structure", "ocfl/storage_root.py: check_root_structure, parse_layout_file"), ("hierarchy walk", "ocfl/storage_root.py: object_paths, validate_hierarchy")],
     ["verdict, counts and codes"],
     "runtime monitoring: fault composition with a model of expected codes and counts",
     "Expected codes and counts are computed from the composition of the generated root.")

prop("C16", "Inventory access tells the truth about the inventory",
     "Reading an inventory through the library gives exactly what the inventory says: version names and numbers, head, logical paths, digests and content paths of every version, metadata, and where a path last occurred. "
     "Every logical path of every version resolves to content paths with the right digest; changing a copy never changes the original; writing and reading back, or normalizing digests, preserves meaning; and an inventory built step by step has the versions, states and manifest of the steps.",
     ["inputs", "histories"],
     "Every conforming inventory, including padded version names, mixed-case digests, custom content directories and repeated digests.",
     "Tests read two fixture inventories.",
     ["ocfl/inventory.py", "ocfl/version_metadata.py"],
     [("inventory accessors", "ocfl/inventory.py: Inventory, Version"), ("metadata", "ocfl/version_metadata.py")],
     ["values returned by inventory and version accessors"],
     "runtime monitoring: model comparison of all accessors over generated inventories",
     "Reference values are computed from the JSON independently.")

prop("C17", "Editing a new version yields exactly the edited state",
     "Starting from the current version, any sequence of adding, deleting and renaming logical paths gives a new version whose state is exactly the result of those edits, whose manifest holds all earlier content plus exactly the new content in use, "
     "and whose pending file copies match. Invalid edits (unknown or already used path, conflicting file and directory, unsafe path) are refused and change nothing, and the difference reported against the previous version is exact.",
     ["histories", "inputs", "configurations"],
     "Every sequence of edit operations on generated objects under every configuration.",
     "Tests perform single edits on one fixture.",
     ["ocfl/new_version.py", "ocfl/object.py", "ocfl/inventory.py"],
     [("edit operations", "ocfl/new_version.py: add, delete, rename"), ("difference", "ocfl/new_version.py: diff_with_previous; ocfl/inventory.py: VersionDiff")],
     ["inventory state and manifest during edits", "object written"],
     "runtime monitoring: model-based test of edit sequences",
     "Model is a dictionary of logical paths to bytes; the result is also written, validated and extracted.")

prop("C18", "File-system helpers copy, walk, compare and digest faithfully",
     "Copying a file or directory between any two file systems yields identical bytes under identical paths, walking finds every file exactly once, comparison says identical exactly when the bytes are, and every supported digest of a file or string is the true "
     "digest in lower-case hexadecimal, for any size and name.",
     ["inputs", "configurations"],
     "File sizes around every internal buffer size, any names, local, in-memory and zip back ends, every digest algorithm.",
     "Tests use tiny files.",
     ["ocfl/fsw.py", "ocfl/digest.py"],
     [("copy and walk", "ocfl/fsw.py"), ("digests", "ocfl/digest.py: file_digest, string_digest, normalized_digest")],
     ["bytes at destination", "names returned", "digest values"],
     "runtime monitoring: comparison with hashlib and os-level reads",
     "Reference digests come from hashlib called directly on the whole content.")

prop("C19", "BagIt export and import preserve content and metadata and reject damage",
     "A version exported as a bag and used as the source of a new object gives the same files, message, user name, address and identifier, and the bag passes independent bag validation. "
     "A bag whose payload, manifests or tag files have been altered, or that is incomplete, is refused as a source and nothing is created.",
     ["inputs", "fault_sequences"],
     "Every content and metadata, and every single damage to a bag.",
     "One bag fixture and one round trip.",
     ["ocfl/bagger.py", "ocfl/object.py"],
     [("bag import", "ocfl/bagger.py: bag_as_source"), ("bag export", "ocfl/bagger.py: bag_extracted_version")],
     ["files and metadata after the round trip", "exception on damage"],
     "runtime monitoring: round trip and damage injection",
     "Bag names and tag values that the bag format cannot carry (line breaks, surrounding space) are excluded.")

prop("C20", "Timestamps convert to the same instant and bad ones are refused",
     "Every timestamp string in the supported date-time format is accepted with all its components, fraction and zone offset preserved, and formatting a time and reading it again gives the same instant; every string outside the format, or naming a date or time that does not exist, is refused. "
     "Current timestamps written by the library are of the present time and accepted by validation.",
     ["inputs"],
     "All dates, times, fractions and offsets, and all near-miss strings.",
     "Tests list about thirty strings.",
     ["ocfl/w3c_datetime.py", "ocfl/version_metadata.py", "ocfl/inventory_validator.py"],
     [("formatting and parsing", "ocfl/w3c_datetime.py: datetime_to_str, str_to_datetime")],
     ["returned strings and times", "exceptions"],
     "runtime monitoring: comparison with an independent date-time parser",
     "The sign convention of the zone offset in parsed values, and a time with no zone being accepted, are as the existing tests fix them; leap seconds and year 0000 are not judged.")

prop("C21", "Command line tools report the true outcome and do what the library does",
     "Each command line tool exits with status 0 exactly when the requested operation succeeded or everything validated was valid, and with a non-zero status otherwise, and its printed verdict agrees. "
     "What the tools create, update, extract, list and validate is what the library gives for the same inputs and options, with every option taking effect.",
     ["inputs", "configurations", "histories"],
     "All commands and option combinations over generated objects, damaged objects and roots.",
     "Tests look for substrings of the output and never at the exit status.",
     ["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py", "ocfl/command_line_utils.py"],
     [("command dispatch", "ocfl-object.py: do_object_operation; ocfl-root.py: do_store_operation; ocfl-validate.py: do_validation; ocfl-sidecar.py: main")],
     ["exit status, standard output and resulting files"],
     "runtime monitoring: scripted runs of the tools compared with expected outcome",
     "Tools are run in-process and, for a sample, as real subprocesses.")

prop("C22", "Declarations identify objects and roots correctly",
     "A declaration file written for a value can be found and passes its content check, and fails it once the content no longer corresponds; all and only the declaration files of the requested tag are found, in a fixed order. "
     "A path is classified as storage root, object or file exactly according to its declaration files.",
     ["inputs"],
     "Every tag, value and content, and directories holding any mix of files and directories.",
     "Tests use four fixture files.",
     ["ocfl/namaste.py", "ocfl/object_utils.py"],
     [("declaration files", "ocfl/namaste.py: Namaste, find_namastes"), ("path classification", "ocfl/object_utils.py: find_path_type")],
     ["returned declarations and classification"],
     "runtime monitoring: model comparison over generated directories",
     "Model of the declaration format written from its specification.")

prop("C23", "Extraction and creation never write outside their destination",
     "Whatever an inventory, identifier, file name or source says, including paths with parent references, absolute paths or names of special meaning, the library writes only inside the object, destination directory or storage root it was given, "
     "and reads content only from inside the object. An inventory that would lead outside is refused.",
     ["inputs", "fault_sequences"],
     "Hostile logical paths, content paths, version names, content directory names, identifiers and layout parameters in otherwise consistent objects and roots.",
     "No test uses a hostile inventory with extraction.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory_validator.py", "ocfl/storage_root.py", "ocfl/layout.py"],
     [("path checks", "ocfl/inventory_validator.py: logical and content path checks; ocfl/new_version.py"), ("layout safety", "ocfl/layout_*.py")],
     ["paths of all file-system events"],
     "runtime monitoring: audit-hook confinement monitor with blocking",
     "Escaping writes are blocked by the monitor before they happen, and reported. Symbolic links inside objects are out of scope.")

prop("C24", "Objects written by other software can be updated without loss",
     "Updating a valid object that other software wrote (upper-case digests, zero-padded versions, missing version inventories, other digest algorithm, custom content directory, earlier specification version, redundant copies) either is refused with the object unchanged or gives a valid object. "
     "All earlier versions keep their content, metadata and names, and version numbering, content directory and identifier continue as they were.",
     ["inputs", "histories", "configurations"],
     "Every conforming object, and every update configuration.",
     "Tests update only objects the library built.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py"],
     [("opening an object for update", "ocfl/object.py: start_new_version, parse_inventory"), ("digest migration", "ocfl/object.py: start_new_version"), ("next version name", "ocfl/new_version.py: next_version")],
     ["object on disk after the update", "content of every version"],
     "runtime monitoring: update of independently written objects with independent checking",
     "Objects come from the independent writer; result is judged by the independent checker and by byte comparison of every version.")


prop("C25", "Problems are reported under documented codes with true and complete messages",
     "Each error or warning that validation of an object, inventory or storage root records carries a code documented in the table of validation codes and a message in the documented form for it, with every parameter filled in and a link to the "
     "specification section that applies. Counts of errors and warnings, the codes noted, and the messages agree with each other. Whether messages for errors and warnings are kept changes what is shown, never the verdict, counts or codes. "
     "A message names the version, path, digest or directory that is at fault, and the values it gives are those recorded in the inventory, calculated from the content or found in the object, each in its place.",
     ["inputs", "configurations"],
     "Every way an object, inventory or root can be wrong, under every setting of what is logged.",
     "Tests look for a code, seldom at the text, and only for the fixtures at hand.",
     ["ocfl/validation_logger.py", "ocfl/data/validation-errors.json", "ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/storage_root.py"],
     [("code table and message building", "ocfl/validation_logger.py: ValidationLogger, ocfl/data/validation-errors.json"), ("callers that fill parameters", "ocfl/validator.py, ocfl/inventory_validator.py, ocfl/storage_root.py")],
     ["messages, codes and counts of the validation log", "status text"],
     "runtime monitoring: offline check of recorded log messages against the documented table",
     "Workloads of C08, C09, C10, C11 and C15 with the place of each planted fault known. Random exploration.")

prop("C26", "A failed root operation or bag export never passes for a complete one",
     "If creating a storage root, adding an object to one, or exporting a version as a bag fails or is cut short at any point, no success is reported, what existed before and the source are unchanged, "
     "and what is left behind is rejected by validation unless it is complete. Repeating the operation either succeeds completely or is refused.",
     ["fault_sequences", "crash_points", "inputs"],
     "Every point at which a read, listing or write of the operation can fail or the process can die, for every layout and kind of object.",
     "No test injects faults into root operations or bag export.",
     ["ocfl/storage_root.py", "ocfl/fsw.py", "ocfl/layout.py", "ocfl/bagger.py", "ocfl/object.py"],
     [("root creation order", "ocfl/storage_root.py: initialize"), ("copy of an object into a root", "ocfl/storage_root.py: add; ocfl/fsw.py: fsw_copydir"), ("bag export", "ocfl/bagger.py: bag_extracted_version")],
     ["outcome of the call, files left on disk, verdict of validation on them"],
     "runtime monitoring: fault injection at audit-hook events with offline judging of what is left",
     "Crash points are the mutating file-system events of the process, all of them up to 40 per operation; no reordering by the kernel is modelled.", level=FE)

prop("C27", "Results do not depend on the environment of the process",
     "The same operations on the same inputs return the same results and messages and write the same bytes whatever the hash seed, time zone, locale, optimisation level, umask, working directory (with paths relative to it), "
     "order of directory listings, or number of files that may be open. Times filled in by default lie within the run.",
     ["configurations", "schedules", "inputs"],
     "Every program of library calls and every such environment.",
     "Tests run in one environment only.",
     ["ocfl/object.py", "ocfl/inventory.py", "ocfl/storage_root.py", "ocfl/layout.py", "ocfl/validator.py", "ocfl/fsw.py", "ocfl/w3c_datetime.py"],
     [("text files opened", "ocfl/object.py: parse_inventory; ocfl/storage_root.py: parse_layout_file; ocfl/layout.py: read_layout_params"), ("ordering", "ocfl/object.py, ocfl/new_version.py, ocfl/validator.py"), ("default times", "ocfl/w3c_datetime.py: datetime_to_str")],
     ["results and written bytes of separate processes"],
     "runtime monitoring: differential runs of the same program in separate processes with different environments",
     "Environments are sampled; file names are kept to ASCII in the non-UTF-8 locale, and listing order may choose which equal file is stored.")


prop("C28", "Operations carried on at the same time do not disturb each other",
     "Operations on different objects or roots in threads of one process give the same results and bytes as when carried out alone. Any number of readers of one object get the same answers as alone. "
     "A reader beside a writer that updates the object gets exactly a version that was there before or after, or an error. When objects are added to one storage root at the same time, exactly one addition of each identifier succeeds, "
     "every object added is complete, and objects already there stay listed.",
     ["schedules", "inputs", "histories"],
     "Every interleaving of the operations at the points where they touch the file system or run library code, for every such set of operations.",
     "Tests run one operation at a time.",
     ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py", "ocfl/storage_root.py", "ocfl/fsw.py", "ocfl/layout_registry.py", "ocfl/validation_logger.py"],
     [("state per instance", "ocfl/object.py, ocfl/validator.py, ocfl/validation_logger.py, ocfl/layout.py: instance attributes"), ("order of writes", "ocfl/object.py: write_new_version"), ("exclusive creation of the destination", "ocfl/fsw.py: fsw_copydir; ocfl/storage_root.py: add")],
     ["results of each thread, files on disk"],
     "runtime monitoring: seeded cooperative scheduler at audit-hook and line events with differential and history oracles",
     "One thread runs at a time; switches at file-system events and library lines. Sharing of one library instance between threads, and two updates of one object, are not covered.")

prop("C29", "Objects and storage roots on S3 behave as in the local file system",
     "Everything that can be done with objects and storage roots in the local file system, creating, building, updating, adding, listing, validating, extracting and describing, gives the same results, messages and bytes when sources, objects, roots or destinations are on S3, also when other programs have changed what is there since an earlier operation. "
     "If a request to S3 fails during an operation, no success is reported unless the result is complete, earlier versions stay intact, and what is left behind is rejected by validation or complete; an operation that must be refused changes nothing.",
     ["inputs", "configurations", "fault_sequences"],
     "Every program of library calls, every choice of what is on S3, every request that may fail, every page size of listings.",
     "No test uses S3; it has no directories, and other errors.",
     ["ocfl/fsw.py", "ocfl/object.py", "ocfl/storage_root.py", "ocfl/validator.py", "ocfl/object_utils.py"],
     [("opening of file systems", "ocfl/fsw.py: fsw_openfs, fsw_opendir_as_fs"), ("no empty directories", "ocfl/fsw.py: fsw_walk, fsw_walk_files, fsw_copydir; ocfl/object.py: _open_new_obj_fs"), ("root creation", "ocfl/storage_root.py: initialize")],
     ["results, requests that reach the store, keys and bytes in the store"],
     "runtime monitoring: differential runs against a recording, fault-injecting S3 server on the loopback interface",
     "The server is our own, in memory, strongly consistent; faults are error answers that are not retried.", level=FE)

prop("C30", "Operations give back what they took and read no more than they need",
     "When an operation returns, raises or refuses, also because of an I/O error, every file it opened is closed, and it has left no descriptors, threads or temporary files and has not changed the working directory, environment, umask, "
     "signal handlers, warning filters or limits of the process; also when a listing is abandoned half-way. Memory does not grow with the size of content files. Validation without digests, listing, identification and description open no content; "
     "validation opens each content file at most once for each digest recorded; extraction and update open only the content they need; other files and directories are read a constant number of times. With twice as many files or objects, the steps of validation, extraction, addition, identification and listing about double. Validation looks at nothing outside what it is given.",
     ["inputs", "fault_sequences", "histories"],
     "Every operation on every object, root and source, however damaged, every point where input or output can fail, every size of content.",
     "A leak shows only after many operations or where an error comes between opening and closing, and garbage collection hides most; tests use small files and look at results only.",
     ["ocfl/fsw.py", "ocfl/object.py", "ocfl/object_utils.py", "ocfl/validator.py", "ocfl/storage_root.py", "ocfl/namaste.py", "ocfl/layout.py", "ocfl/digest.py", "ocfl/bagger.py"],
     [("files opened in with blocks", "ocfl/fsw.py: fsw_copyfile, fsw_files_identical; ocfl/object.py: parse_inventory, write_inventory_and_sidecar; ocfl/validator.py; ocfl/namaste.py"),
      ("reading in blocks", "ocfl/digest.py: file_digest; ocfl/fsw.py: fsw_copyfile"), ("check_digests", "ocfl/validator.py: validate_content")],
     ["files opened, read, listed and closed; descriptors, threads, process state; memory allocated"],
     "runtime monitoring: handle, descriptor, process-state, access-count and allocation monitors, with injected I/O errors",
     "Files opened inside bagit and fsspec count through descriptors only; descriptors of archives after garbage collection; bounds on repeated reads of inventories and listings are generous (8).")

prop("C31", "What cannot be read is never reported as sound or complete",
     "When a file or directory that an operation needs cannot be opened, listed or read to its end (an I/O error, lack of permission, a refusal by S3, an archive that is cut off or altered), validation of the object or "
     "storage root never says valid, listing of a storage root is complete or fails, extraction, copying, digests, comparison, creation, building, update and addition give exactly the right result or raise an exception, and identification and "
     "classification of a path give the right answer or the documented failure value. An interrupt or exit raised meanwhile is never swallowed.",
     ["inputs", "fault_sequences"],
     "Every object, root, source and archive, every file and directory read by the operation, every kind of error, every point of the operation.",
     "Tests read healthy disks; an error that is caught too widely, or passed over to carry on with the rest, turns what was not looked at into a clean verdict or an incomplete copy, and nobody is told.",
     ["ocfl/validator.py", "ocfl/storage_root.py", "ocfl/fsw.py", "ocfl/object.py", "ocfl/object_utils.py", "ocfl/namaste.py", "ocfl/digest.py", "ocfl/new_version.py", "ocfl/layout.py"],
     [("errors of listing come out of fsw_walk and fsw_listdir_names", "ocfl/fsw.py"), ("unreadable inventory, sidecar, declaration and content are errors E033, E061, E003e, E092b", "ocfl/validator.py"),
      ("failure value", "ocfl/object.py: id_from_inventory"), ("traversal errors make the root invalid", "ocfl/storage_root.py: validate")],
     ["files opened and listed; injected errors; verdicts; results of copying and extraction; requests to S3"],
     "runtime monitoring with fault injection: each path an operation reads fails in turn, verdicts and results compared with those of undisturbed runs and of an independent oracle",
     "A path that fails once fails each time it is used in the operation. Errors are those of the operating system, zipfile and S3.")



def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(TOP, "vf", "props")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(TOP, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p, _, _, _ in P:
            fh.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p, tech, level, note in P:
        if p["id"] in have:
            m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                                "technique": tech, "level": level, "level_note": note})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    m["notes"] = "No hooks in /repo are needed: monitors use Python audit hooks, sys.monitoring and the public API. Fix commits are listed in known_findings.json."
    with open(os.path.join(TOP, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
