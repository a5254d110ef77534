P = []
NA = []
F_MOD = "src/patch/mod.rs"; F_DEV = "src/patch/device.rs"
def p(*a): P.append(a)

p("C18", "Includes merge every rule of every included file exactly once",
  "A patch with `_include` lists (at the top or in a peripheral; paths relative to the including file) behaves as the single document obtained by merging every transitively included file once: lists of rules are concatenated, maps are merged recursively, and for conflicting single values (the range or a value of a field included) the including file wins. Missing, malformed or circular includes make the command fail instead of being skipped.",
  ["inputs", "configurations"], "every include topology over three files times every pair and triple of rule values of all YAML kinds under the same key, plus about 150 structural variants (paths, links, malformed files, cycles)",
  "Tests use one two-file include; which rules are lost or duplicated depends on the combination of value kinds and the include graph.",
  [F_MOD, "src/patch/patch_cli.rs"], [("include expansion", "src/patch/mod.rs yaml_includes, update_dict, update_in_place")])
p("C19", "The dependency list names exactly the files a patch reads",
  "`makedeps` writes one make rule that lists exactly the files that patching reads through `_include`, transitively, each by its full path, in all include graphs; when the patch cannot be loaded it fails and leaves existing files alone. No other file is changed.",
  ["inputs", "configurations"], "every directed include graph over three (thorough: four) files, at the top level and inside peripherals, plus the structural include variants",
  "No test covers makedeps; a missing dependency shows only for a specific include graph.",
  ["src/makedeps/mod.rs", "src/makedeps/makedeps_cli.rs", F_MOD], [("dependency list", "src/makedeps/mod.rs"), ("include reading", "src/patch/mod.rs yaml_includes")])
p("C37", "An expanded patch patches exactly like the original",
  "`expand-patch` writes one self-contained YAML document, the same to a file and to standard output, and patching with it gives byte for byte the same SVD, or failure, as patching with the original. Expanding an expanded patch again changes nothing.",
  ["inputs", "configurations"], "about 4000 documents: every rule family, every scalar notation and every text of up to two special characters, directly and through includes",
  "No test covers expand-patch.",
  [F_MOD, "src/patch/patch_cli.rs"], [("expansion to YAML", "src/patch/mod.rs expand_patch, load_patch")])

p("C20", "A command that fails reports it and leaves every file as it was",
  "A patch, convert, expand-patch, makedeps or info command that cannot do its work (unreadable, malformed or impossible patch, device, include, option or configuration) exits non-zero with a message on standard error, writes nothing to standard output, and leaves every existing file, an existing output file included, byte for byte as it was, creating none. A command that succeeds writes only its output file, in full.",
  ["inputs", "fault_sequences"], "every command times every way its patch, device, include, configuration or destination can be missing, unreadable, malformed or impossible, times every state of the destination (absent, existing, the input itself, a missing directory, a directory, a full device)",
  "Tests only run successful patches and compare the result; none looks at what a failing command leaves behind, which depends on when each file is opened.",
  ["src/patch/patch_cli.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", F_MOD], [("patch output", "src/patch/mod.rs process_file"), ("conversion output", "src/convert/convert_cli.rs convert"), ("argument handling", "src/cli.rs")])
p("C21", "A patch leaves everything it does not select exactly as it was",
  "Every peripheral, register, cluster, field and interrupt that a patch does not select, and every attribute of the elements on the way to a selected one, is in the result with unchanged content and order. A patch without rules, or whose optional selectors match nothing, reproduces the device.",
  ["inputs"], "devices with each single element and attribute of the SVD format times patches that select nothing, and every rule of each level below every selector spelling over four fixtures",
  "Tests compare a few patched files as a whole; a rule that also changes a neighbour shows only with particular selectors and devices.",
  [F_MOD, F_DEV, "src/patch/peripheral.rs", "src/patch/register.rs"], [("selection", "src/patch/mod.rs matchname, src/patch/iterators.rs"), ("rules", "src/patch/device.rs, peripheral.rs, register.rs")])
p("C23", "Conversion between XML, JSON and YAML preserves the device",
  "`convert` reads and writes SVD in XML, JSON or YAML, chosen by file extension or by option, and the result describes the same device, element for element; unknown extensions and formats are errors. `--expand`, `--expand-properties` and `--ignore-enums` apply exactly the named transformation, and `info device-name` prints the name of the device.",
  ["inputs", "configurations"], "devices with each single element of the SVD format times every pair of formats, times every combination of the three flags, times every extension and format name",
  "No test covers convert or info; what is lost depends on the element and the format pair.",
  ["src/convert/convert_cli.rs", "src/info/mod.rs"], [("formats", "src/convert/convert_cli.rs InputFormat, OutputFormat"), ("reading", "src/convert/convert_cli.rs open_svd"), ("info", "src/info/mod.rs")])
p("C29", "Encoder options of a format configuration apply exactly as written",
  "`--format-config` of `patch` and `convert` takes a YAML or JSON file by its extension and applies exactly the name cases, number formats, bit range notation and sorting written in it, leaving everything it does not mention in the default format. Other extensions, unreadable files, and unknown options or values are errors.",
  ["configurations"], "every option with every value, every pair of options, in YAML and JSON, for both commands, and every file name and malformed content of a list",
  "Tests use the default configuration only.",
  ["src/lib.rs", "src/convert/convert_cli.rs", F_MOD], [("configuration file", "src/lib.rs get_encoder_config"), ("use", "src/patch/mod.rs process_file, src/convert/convert_cli.rs convert")])
p("C30", "Post-validation refuses exactly the strictly invalid results",
  "`patch --post-validate` fails, writing nothing, exactly when the patched device violates the SVD rules in strict mode (names, sizes, reset values, bit ranges, enumerated values, empty register and field lists), and otherwise writes the same file as without the option. Without the option the result is not judged.",
  ["inputs", "configurations"], "every kind of name in every position a rule can set, the limits of every number, structural rules, and devices with each single element of the SVD format",
  "No test uses the option.",
  [F_MOD, "src/patch/patch_cli.rs"], [("validation after patching", "src/patch/mod.rs process_device"), ("option", "src/patch/patch_cli.rs, src/cli.rs")])
p("C33", "The patch command reads, writes and applies what its arguments say",
  "`patch` reads the device that `_svd` names relative to the patch file, wherever the command is called from, and writes the given file, or else one beside the device named like it with `.patched` added. `--enum-derive` (references by default), `--format-config` and `--post-validate` mean the same in every combination and position. `--show-patch-on-error` changes no result and shows the complete patch with its includes when rules fail.",
  ["inputs", "configurations"], "every arrangement of patch file, device (ten kinds of names), working directory and output over relative and absolute paths, and every combination of the options with 14 patches",
  "No test calls the command or combines options.",
  ["src/patch/patch_cli.rs", "src/cli.rs", F_MOD], [("paths", F_MOD + " process_file, abspath"), ("options", "src/cli.rs Command::run, src/patch/patch_cli.rs patch")])

p("C24", "The memory map lists every element exactly once, arrays expanded",
  "`mmap` prints one line for every peripheral, interrupt, cluster, register and field of the device, arrays expanded element by element with their addresses and names, in sorted order and nothing else. Each line carries the absolute address in upper case hexadecimal (fields also bit offset and width), the name, what it is derived from, its own access in short form, and its description with whitespace collapsed. A derived peripheral without registers lists those of its nearest ancestor that has some.",
  ["inputs", "configurations"], "devices with each single element of the SVD format, all derivation graphs over three (thorough: four) peripherals with every choice of those having registers, address, bit range, access, description and array grids at every level, and all orders of three siblings",
  "One test covers two plain peripherals; arrays, nesting, derivation chains and formatting are untested.",
  ["src/mmap/mmap_cli.rs", "src/common/str_utils.rs", "src/common/svd_utils.rs"], [("memory map", "src/mmap/mmap_cli.rs to_text, get_registers, get_fields"), ("formatting", "src/common/str_utils.rs, src/common/svd_utils.rs")])
p("C25", "The interrupt list is complete, ordered, and its gaps exact",
  "`interrupts` prints every interrupt of every peripheral exactly once in order of value (equal values in document order) with its name, description on one line and peripheral. Unless `--no-gaps` is given, it then names exactly the values below the highest one that no interrupt has.",
  ["inputs"], "every assignment of the values 0 to 4 (thorough: 6) to two peripherals or none, every sequence of three values with repetition over up to three peripherals, a text alphabet, and devices with each single element of the SVD format",
  "Tests cover two interrupts; repeated values and gaps before, between and after depend on the sequence.",
  ["src/interrupts/interrupt_list.rs", "src/interrupts/interrupts_cli.rs", "src/interrupts/svd_reader.rs"], [("order and gaps", "src/interrupts/interrupt_list.rs"), ("output", "src/interrupts/interrupts_cli.rs"), ("reading", "src/interrupts/svd_reader.rs")])

F_PY = "svdtools/patch.py"
p("C31", "The Python listings and dependencies agree with the device",
  "The Python command `svd interrupts` lists every interrupt in order of number with its peripheral and, unless `--no-gaps` is given, the unused numbers (numbers being distinct). `svd mmap` lists, sorted, every peripheral, interrupt, cluster array, register and field (names and descriptions given, derivation in one step) with address, bits, access and description, arrays expanded. `svd makedeps` writes exactly the files that are included, directly or not (without circles); the functions `main` of the modules do the same.",
  ["inputs", "configurations"], "every assignment of five (thorough: seven) interrupt numbers to two peripherals or none, grids of addresses, bit ranges, access values, arrays, clusters and texts, orders of siblings, and every acyclic include graph over four (thorough: five) files",
  "One test each covers a single small file.",
  ["svdtools/interrupts.py", "svdtools/mmap.py", "svdtools/makedeps.py", "svdtools/cli.py", F_PY], [("interrupts", "svdtools/interrupts.py main"), ("memory map", "svdtools/mmap.py parse, expand_dim, to_text"), ("dependencies", "svdtools/makedeps.py main, svdtools/patch.py yaml_includes")])
p("C32", "The Python and Rust implementations produce the same device",
  "A patch of the common rules (selection, delete, copy, modify, add, derive, rebase, strip, array, cluster and registers of clusters, clear, merge, split, enumerated values, constraints, read and write actions, includes) that the Rust implementation accepts makes `svd patch` (`svdtools.patch`) write the same device, up to the order of elements. Rules naming a missing element, adding an existing one, deriving an element from itself, collecting registers at uneven distances or giving invalid enumerated values are refused by both; modifying, splitting or checks of derived access may be stricter in Rust.",
  ["programs", "inputs"], "every rule over alphabets of peripheral, register, field and interrupt selectors with optional forms, all pairs of rules at device, peripheral and register level, rules for the registers of clusters, and all assignments of rules to three files in several include topologies",
  "No Python test applies a patch.",
  [F_PY], [("rules", "svdtools/patch.py Device, Peripheral, Register, Cluster"), ("order", "svdtools/patch.py process_device, process_peripheral, process_register"), ("includes", "svdtools/patch.py yaml_includes, update_dict")])

F_HTML = "src/html/html_cli.rs"
p("C26", "The coverage numbers of the HTML pages count every field exactly once",
  "In the page `html` writes for a device, and in the index, the covered and existing fields of every register, peripheral and device count every field once, elements of arrays of fields, registers and clusters individually and including what is derived from elsewhere. A field is covered exactly when it has enumerated values or a write constraint, its own or derived, or can only be read (by its own access, or else its register's). The bars show the ratio, full where there is no field.",
  ["inputs", "configurations"], "all access values at device, peripheral, register and field times all kinds of documentation, all distributions of up to three (thorough: six) fields over registers, array sizes at all levels, every derivation graph of three (thorough: four) peripherals and forms of derived clusters, registers, fields and enumerated values, and sets of up to four devices per call",
  "No test runs `html`.",
  [F_HTML, "src/html/template.html", "src/html/index.template.html"], [("counting", F_HTML + " parse_register, parse_device, progress"), ("derivation", F_HTML + " parse_cluster, parse_register_array")])
p("C34", "The HTML page of a device shows every register and field where it is",
  "The page lists all peripherals by name and their registers, those in clusters and arrays included, by offset and name with offset, size, reset value, access and text; derived elements show what they inherit. The bit tables show each field exactly in the columns of its bits below 32 with its way of access, and the field list shows position, text and allowed values in order of position. A field beyond its register makes the command fail.",
  ["inputs", "configurations"], "all pairs (thorough: triples) of fields over boundary bit ranges, register sizes, all access, write and read action combinations, sibling orders, array names, indexes and increments, nested clusters, texts, enumerated values with defaults, properties, addresses, and the derivation space",
  "No test runs `html`.",
  [F_HTML, "src/html/template.html"], [("registers and fields", F_HTML + " parse_register"), ("clusters and arrays", F_HTML + " parse_cluster, parse_register_array"), ("page", "src/html/template.html")])
p("C27", "The comparison shows for every element exactly which devices have it",
  "`htmlcompare` writes an index of all peripherals of all given files, a page per peripheral (name and base address) with all its registers, and a page per register (name and offset) with all its fields (name, offset, width), and no others. Arrays, clusters and derivations are expanded first. Every row marks, in the order of the files, exactly those that have the element.",
  ["inputs", "configurations"], "all pairs and selected (thorough: all) triples of devices that differ in one place, single and paired devices of the derivation space, file names that differ in one part, and malformed files",
  "No test runs `htmlcompare`.",
  ["src/html/htmlcompare_cli.rs"], [("tables", "src/html/htmlcompare_cli.rs who_has_what_*, html_table_*"), ("pages", "src/html/htmlcompare_cli.rs html_tables")])
p("C35", "HTML pages are renewed exactly when outdated and inputs never change",
  "In every history of editing, touching and removing files, a call of `html` writes the page of a given device, with the copy of its SVD file, exactly when the page is missing or older than the SVD file, and then from its current content; other pages stay as they are. The index always shows exactly the devices given, with their current numbers. No call changes an SVD file it reads, wherever that file lies, and names that are not files are passed over.",
  ["histories", "configurations"], "all histories up to three (thorough: four) steps, and up to four (thorough: six) with one device, of edits with newer, older and equal time, touching, removing pages and calls for one or both devices, with the SVD files in five places relative to the HTML directory",
  "No test runs `html`; the outcome depends on the order of steps.",
  [F_HTML], [("renewal", F_HTML + " generate_if_newer, svd2html")])
