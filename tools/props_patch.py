# (id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)])
F_MOD = "src/patch/mod.rs"; F_DEV = "src/patch/device.rs"; F_PER = "src/patch/peripheral.rs"; F_REG = "src/patch/register.rs"; F_YAML = "src/patch/yaml_ext.rs"; F_IT = "src/patch/iterators.rs"
P = []
def p(*a): P.append(a)

p("C01", "Name specifications select exactly the elements they denote",
  "Wherever a patch rule selects peripherals, registers, clusters, fields or interrupts by a name specification, it acts on every element whose complete name matches the specification and on no other. A specification is a literal name, wildcards `*` and `?`, character classes, comma separated alternatives or brace alternatives; matching is case sensitive and covers the whole name.",
  ["inputs"], "every specification built from up to three (thorough: four) pattern tokens, in every kind of rule that takes a specification, over names chosen to collide",
  "The repository's tests use a handful of literal names and `*`; the property quantifies over all patterns at all rule positions.",
  [F_MOD, F_IT, F_PER, F_REG, F_DEV], [("name matching", "src/patch/mod.rs matchname/matchsubspec"), ("matching iterators", F_IT)])
p("C02", "A required selector that matches nothing fails, an optional one is skipped",
  "A rule that selects a peripheral to process, or a cluster, register or field to process, modify, collect, merge, split or give values, constraints or actions, and matches nothing makes the whole patch fail instead of being silently lost. The same selector marked optional with a leading `?~` is skipped when nothing matches, and acts exactly like the unmarked one when something does.",
  ["inputs", "programs"], "every rule kind times 35 selectors (matching, not matching, partly matching, optional), and every pair of nested or sibling selectors",
  "Tests contain only patches that succeed; a dropped error is invisible to them.",
  [F_MOD, F_DEV, F_PER, F_REG], [("optional marker", "src/patch/mod.rs spec handling"), ("missing element errors", "device.rs, peripheral.rs, register.rs process functions")])
p("C03", "Deletion removes exactly the selected elements",
  "`_delete` removes every selected peripheral, register, cluster, field or interrupt and leaves all other elements, and their order, unchanged. When the rule names a kind of element (`_registers`, `_clusters`, `_interrupts`), elements of another kind with the same name stay.",
  ["inputs", "histories"], "every sequence of up to two (thorough: three) deletion patches from an alphabet of about 300 rules on two devices",
  "Tests delete a few named elements once; they cannot settle what is left after every combination of deletions.",
  [F_DEV, F_PER, F_REG], [("deletion", "device.rs, peripheral.rs, register.rs delete functions")])
p("C04", "Added elements have the given attributes and never shadow existing ones",
  "`_add` creates a peripheral, register, cluster, field or interrupt with exactly the attributes given in the rule, including nested registers and fields, arrays, address blocks and interrupts, and leaves the existing elements as they were. Adding an element whose name already exists, or without a mandatory attribute, fails.",
  ["inputs", "histories"], "every sequence of up to two addition patches covering every attribute of every kind of element",
  "Tests add two or three elements; attribute combinations, name clashes and incomplete elements are not covered.",
  [F_DEV, F_PER, F_REG, F_MOD], [("builders", "src/patch/mod.rs make_*"), ("insertion", "device.rs, peripheral.rs, register.rs add_*")])
p("C05", "Modification changes exactly the named attributes of the selected elements",
  "`_modify` sets exactly the attributes given in the rule, on exactly the selected device, cpu, peripheral, register, cluster, field, interrupt or address block elements; every other attribute and element keeps its value. Later modifications see the result of earlier ones.",
  ["inputs", "histories"], "every sequence of up to two modification patches from an alphabet covering every attribute of every kind of element",
  "Tests modify a few attributes once; which attributes are left alone, for every attribute and element kind, is not checked.",
  [F_DEV, F_PER, F_REG, F_MOD], [("modification", "modify_* functions")])
p("C06", "Copies equal their source except for what the rule overrides",
  "`_copy` of a peripheral (from the same device or from another file) or register yields an element that differs from its source only in name and in what the copy rule overrides; the source stays unchanged. A peripheral copied onto an existing name keeps that peripheral's name, base address and interrupts and takes everything else, also what the source inherits, from the source; interrupts of the source are not duplicated into the copy.",
  ["inputs", "histories"], "every sequence of up to two copy patches (with following changes) on devices with derived, chained and array peripherals",
  "Tests copy one plain peripheral and one register; derived sources, existing targets and chains of copies are not covered.",
  [F_DEV, F_PER, F_MOD], [("copying", "device.rs copy_peripheral, peripheral.rs copy_register")])
p("C07", "Deriving keeps references valid and drops only what is inherited",
  "`_derive` makes a peripheral, register or field derived from an existing other element, keeping only what distinguishes it (its name, position, interrupts and whatever the rule gives); deriving from a missing element, or an element from itself (directly or through others), fails. Peripherals, and registers of the same block, that were derived from the newly derived one refer to its source afterwards, so that no reference chain is broken.",
  ["inputs", "histories"], "every sequence of up to two (thorough: three) derive patches on devices with chains of derived peripherals",
  "Tests derive once from plain elements.",
  [F_DEV, F_PER, F_REG], [("deriving", "device.rs derive_peripheral, peripheral.rs derive_register, register.rs derive_field")])
p("C08", "Rebasing swaps roles in a derivation without losing content or references",
  "`_rebase` makes the new base peripheral hold the old base's full content under its own name, address and interrupts, derives the old base from it, and makes every peripheral that was derived from the old base refer to the new one. The base is declared before the peripherals derived from it, and impossible rebases (a peripheral is missing, or the new base is one the old base is itself derived from) fail.",
  ["inputs", "histories"], "every sequence of up to two (thorough: three) rebase, derive and modify patches on devices with chains of derived peripherals",
  "Only one simple rebase is exercised by the tests' patches.",
  [F_DEV], [("rebasing", "device.rs rebase_peripheral")])
p("C09", "Collecting registers or fields into an array preserves every one of them",
  "When `_array` collects registers or fields, expanding the resulting array gives back exactly the collected elements: the same names (up to the renaming the rule asks for), addresses or bit positions, widths of fields, and the bits used by registers; what else differs between them (field names, reset values, access, enumerated values) is that of the first. If the collected elements are not evenly spaced, registers among them use different bits, fields among them have different widths, or nothing matches (and the rule is not optional), the rule fails and nothing is lost.",
  ["inputs"], "every arrangement of up to four registers (offsets, sizes, layouts, descriptions, names) and of fields times every array rule option",
  "Tests collect evenly spaced identical registers only.",
  [F_PER, F_REG], [("collecting", "peripheral.rs collect_in_array, register.rs collect_fields_in_array")])
p("C10", "Collecting registers into a cluster preserves every one of them",
  "When `_cluster` collects registers, the resulting cluster or cluster array places every collected register at the address it had, under the name and description the rule prescribes, with otherwise the same contents; registers not selected stay as they were. Groups that differ in number or spacing, and registers of one group that use different bits, are refused; what else differs within a group is that of its first register.",
  ["inputs"], "every arrangement of two groups of up to three registers over small offset and name domains, times the cluster rule options",
  "Tests contain three regular examples.",
  [F_PER], [("collecting", "peripheral.rs collect_in_cluster")])
p("C11", "Expanding arrays and clusters preserves addresses, contents and order",
  "`_expand_array` replaces an array of registers, and `_expand_cluster` an array of clusters, by their individual elements: each at its absolute address in the parent, with its index substituted in names and descriptions as the rule's options say, in the order of the array, with the register properties and sources it inherited inside, and without touching any element that the rule does not select. Selecting something that is not expandable or does not exist fails.",
  ["inputs"], "every combination of array shapes, index kinds, name patterns, nesting and rule options within small domains",
  "Tests expand two clusters; index kinds, nesting and options are not covered.",
  [F_PER], [("expansion", "peripheral.rs expand_array, expand_cluster")])
p("C12", "Merging and splitting fields keeps the bits and names each part",
  "`_merge` replaces the selected fields by one field that starts at their lowest bit and is as wide as they are together, so adjacent fields keep exactly their bits, and `_split` replaces a field by one-bit fields that cover exactly its bits, each with the name and description the rule or its defaults prescribe. Other fields stay unchanged, and the merged field has the description of the first one and the access that all of them share.",
  ["inputs"], "every set of up to three fields over small position, width, access and description domains times all rule forms",
  "Tests merge or split one field list in one form.",
  [F_REG], [("merging and splitting", "register.rs merge_fields, split_fields")])
p("C13", "Stripping and affixing rename consistently and lose no character",
  "`_strip` and `_strip_end` remove from the names of all registers, clusters or fields directly inside the element exactly the shortest part at the beginning or end that matches the pattern, and `_prefix` and `_suffix` add exactly the given text. References by name that denote the renamed elements (display name, alternate register) are renamed in the same way; names that do not match are left alone.",
  ["inputs"], "every pattern of up to three tokens times a set of names (including non-ASCII), at every level, alone and combined",
  "Tests strip literal prefixes only.",
  [F_PER, F_REG, F_MOD], [("stripping", "src/patch/mod.rs strip_matched_*, peripheral.rs strip, register.rs strip")])
p("C14", "Enumerated values are attached to every selected field with the right usage",
  "A field rule with named values gives every selected field exactly those values with their descriptions, with the usage (read, write, both) that the rule requests and the field's access permits, replacing existing values only when the rule says so (existing read-write values stay for the direction the rule does not give). Fields sharing one rule get equivalent values, either as copies or as references that resolve to the same values in every derivation mode; duplicate or malformed values, or a second own set of values for the same usage, fail.",
  ["inputs", "configurations", "histories"], "every combination of field access, rule form, usage, replacement, sharing mode and existing values; sequences of up to two rules",
  "Tests contain a few enum rules in the default mode.",
  [F_REG, F_MOD], [("enumerated values", "register.rs process_field_enum, set_enum; src/patch/mod.rs make_ev_array")])
p("C15", "Write constraints, read actions and clearing affect exactly the selected fields",
  "A range rule (`[min, max]`), a write constraint keyword or a modified-write or read-action keyword sets exactly that attribute on every selected field; a clearing rule removes exactly the enumerated values and write constraints of every selected field. Nothing else about any field changes.",
  ["inputs", "histories"], "every sequence of up to two rules from an alphabet of all constraint forms, keywords and clearing rules",
  "Tests use one or two ranges.",
  [F_REG, F_PER], [("ranges and keywords", "register.rs process_field_range, process_field"), ("clearing", "clear_fields")])
p("C16", "Rules never reach through a derived peripheral into shared content",
  "Patch rules on a peripheral that is derived from another act only on what that peripheral declares itself (its attributes and interrupts); the shared registers are changed only by rules that select the peripheral that declares them. A rule that selects both changes the shared content once.",
  ["inputs", "histories"], "every sequence of up to two rules over about 500 rule and selector combinations on a device with derived peripherals, registers and clusters",
  "No test patches a derived peripheral.",
  [F_DEV, F_PER, F_REG], [("derived check", "peripheral.rs process")])
p("C17", "The order in which rules are written does not matter across phases",
  "Within one element, rules of different kinds take effect in the documented order of phases (delete, copy, strip and affix, modify, add, derive, children, collect, expand), whatever order they are written in. Each phase sees the complete result of the previous ones.",
  ["inputs", "programs"], "every subset of two or three (thorough: four) rules out of about 20 kinds, in every order of writing, for devices, peripherals, clusters and registers",
  "Tests fix one order of writing.",
  [F_DEV, F_PER, F_REG], [("phases", "process functions")])
p("C22", "Literals mean the same in every notation",
  "Integers written in decimal, hexadecimal or binary notation, quoted or not, denote the same number wherever a rule takes a number, and likewise the notations of a boolean. A literal that is malformed, of the wrong type, or a number that does not fit the 32 bits of the attribute it is for makes the patch fail rather than being read as something else.",
  ["inputs"], "every literal of an exhaustive list of notations and malformed variants, and about 40 numbers around all attribute widths in every notation, at every rule position that takes a number or boolean",
  "Tests use decimal and 0x literals in a few places.",
  [F_YAML], [("literal parsing", "src/patch/yaml_ext.rs")])
p("C28", "Placeholders in rule texts expand to the enclosing names",
  "In descriptions and derivation references given by rules for registers, clusters and fields, the placeholders `peripheral`, `block_path`, `register` and `register_path` (written between backquotes) are replaced by the name or dotted path of the enclosing element at that position. Everything else in the text is kept literally.",
  ["inputs"], "every text of up to three placeholder or literal tokens at every nesting position that supports it",
  "No test uses placeholders.",
  [F_MOD], [("interpolation", "src/patch/mod.rs interpolate")])
