#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Stages run in configured order, each exactly once",
  "Normalizing a text feeds it through exactly the stages the instance was given, in the order they were given (the stages of the constructor, then one per later add call), each applied once to the complete output of the stage before it. An instance with no stages returns every text unchanged. Adding a stage to one instance never changes what another instance does.",
  ["histories", "inputs"],
  "Every sequence of constructor and add calls (empty, preset, neologdn, from a table, from a configuration file, add preset / neologdn / table), interleaved over several instances, and every text normalized at any point of it.",
  "The tests build at most one stage per instance, never two stages that do not commute and never two instances; the order and the count of stages is unobservable in them.",
  ["src/chanoma.rs", "src/modifier_kind.rs"],
  [("fold over the stage list", "src/chanoma.rs:normalize"), ("stages are appended by each add call", "src/chanoma.rs:use_preset,use_neologdn,add_table"), ("dispatch to the stage's own routine", "src/modifier_kind.rs:modify")],
  ["Chanoma::normalize", "Chanoma::normalize_with_positions"],
  [("modifiers", "ordered list of stages of one instance", "src/chanoma.rs:Chanoma")])

p("C02", "Position-reporting and debug normalization give the same text",
  "For every instance and text, normalizing with position reporting yields the same final text as plain normalization, and neither result, including the whole report with its positions, changes when debug logging is switched on. The report holds exactly one record per stage, in stage order and naming the stage's kind, and each record's text is the output of that stage on the previous record's text. With no stages the report is empty and its final text is the input.",
  ["histories", "inputs", "configurations"],
  "Every stage list (including the empty one and every stage kind), every text, and debug logging on or off.",
  "Tests compare the two routes only for one neologdn stage on some 20 fixed strings, never look at the records, never enable debug logging and never use an empty stage list.",
  ["src/chanoma.rs", "src/modifier.rs", "src/modifier/"],
  [("every stage kind implements the transformation twice", "src/modifier/*.rs:modify,modify_with_positions"), ("debug logging selects the other route", "src/chanoma.rs:normalize"), ("final text of the report", "src/modifier.rs:ModifiedRecords::text")],
  ["Chanoma::normalize", "Chanoma::normalize_with_positions", "ModifiedRecords::text", "ModifiedRecords::modified_records"])

p("C03", "A conversion table replaces exactly its own characters, once",
  "A conversion stage replaces every occurrence of every character its table maps by that character's target and leaves every other character, the number of characters and their order unchanged. Replacement is simultaneous: a character produced by the stage is not converted again by the same stage. When a table maps one character several times the last mapping in the table's item order decides, and an item with an empty source or target maps nothing.",
  ["inputs", "configurations"],
  "Every table of one-character items (including chains, swaps, identity mappings and conflicting items) and every text over all of Unicode.",
  "Tests use a table whose one item does not occur, and fixed table rows each occurring once; no chained, swapped or conflicting items, no repeated occurrences, no characters outside the BMP.",
  ["src/modifier/character_converter.rs", "src/table.rs"],
  [("occurrence index per distinct character, replaced in place", "src/modifier/character_converter.rs:modify"), ("item list to map, later items overwrite", "src/modifier/character_converter.rs:from_tables")],
  ["Chanoma::from_table + normalize", "Chanoma::add_table + normalize"])

p("C04", "The preset converts its documented characters and nothing else",
  "Normalizing with the preset converts full-width digits, full-width Latin letters and the documented full-width punctuation to their half-width forms, and half-width katakana letters, half-width Japanese punctuation and the ideographic space to their documented counterparts. Every other Unicode character is left unchanged, in any context. Normalizing the result again changes nothing.",
  ["inputs"],
  "Every one of the 1,112,064 Unicode scalar values on its own, and every text made of them.",
  "Tests look at the mapped characters of a few sets only, each in one fixed string; that none of the remaining million characters is touched, and that the target set does not overlap the source set, is quantified over all of Unicode.",
  ["src/characters_set.rs", "src/characters_set/alphabets.rs", "src/characters_set/digits.rs", "src/characters_set/kanas.rs", "src/characters_set/punctuations.rs", "src/chanoma.rs", "src/table.rs"],
  [("union of the four one-to-one sets", "src/characters_set.rs:All::items"), ("the literal tables", "src/characters_set/*.rs")],
  ["Chanoma::preset", "Chanoma::use_preset", "TableBuilder::preset"])

p("C05", "The neologdn stage performs its documented procedure on every text",
  "The neologdn stage equals, in this order: the preset conversion without the equals sign plus the prolonged-sound-mark and hyphen variants, collapsing runs of the prolonged sound mark, removing spaces not between two ASCII alphanumerics, removing the six tilde characters, and composing kana with a following full-width voiced or semi-voiced mark. Its result never contains one of the six tilde characters or a kana followed by a mark it composes with, and every half-width space in it stands alone between two ASCII alphanumerics.",
  ["inputs"],
  "Every text over all of Unicode, in particular texts in which one step creates or removes material for a later one.",
  "About 20 fixed sentences are tested; the interaction of the steps (a tilde between spaces, marks after converted half-width kana, runs made of different variants) and all 52 kana/mark pairs are not.",
  ["src/modifier/neologdn.rs", "src/modifier/dotted_space_eliminator.rs", "src/modifier/consecutive_character_reducer.rs", "src/modifier/character_eliminator.rs", "src/modifier/ligature_translator.rs", "src/modifier/character_converter.rs"],
  [("six sub-steps in sequence", "src/modifier/neologdn.rs:modify"), ("variant, tilde and kana tables", "src/modifier/neologdn.rs:KANA_TEN,KANA_MARU,TILDES,CHOONPUS,HYPHENS")],
  ["Chanoma::neologdn", "Chanoma::use_neologdn", "modifiers: neologdn in YAML"])

p("C06", "Space elimination keeps one space between ASCII alphanumerics only",
  "The space-eliminating stage deletes half-width spaces and nothing else. A run of spaces of any length is replaced by exactly one space when both its neighbours are ASCII letters or digits, and by none otherwise, in particular at either end of the text. Other white space, such as tabs, newlines and ideographic spaces, is an ordinary character to it.",
  ["inputs"],
  "Every text; every placement and length of runs of spaces relative to ASCII alphanumerics, other ASCII characters and non-ASCII characters including non-ASCII letters and digits.",
  "Only reached through neologdn on a few sentences; runs of several spaces between ASCII words, non-ASCII letters and digits, and other white space are not tested.",
  ["src/modifier/dotted_space_eliminator.rs"],
  [("scan remembering the previous character and a pending space", "src/modifier/dotted_space_eliminator.rs:modify")],
  ["modifiers: dotted_space_eliminator in YAML"])

p("C07", "Run reduction collapses only runs of the configured character",
  "The run-reducing stage replaces every maximal run of its configured character by a single occurrence of it. It leaves runs of every other character, and everything else in the text, unchanged, whatever the run lengths and wherever the runs stand.",
  ["inputs", "configurations"],
  "Every configured character (of any UTF-8 length) and every text.",
  "One test with one run of one character at the end of one word.",
  ["src/modifier/consecutive_character_reducer.rs"],
  [("scan with an in-run flag (plain) or counter (reporting)", "src/modifier/consecutive_character_reducer.rs:modify,modify_with_positions")],
  ["modifiers: consecutive_character_reducer in YAML"])

p("C08", "Character elimination and trimming remove exactly what they name",
  "The character-eliminating stage deletes every occurrence of each configured character and nothing else. The trimming stage deletes all half-width spaces at the two ends of the text and nothing else: no inner space, no other white space.",
  ["inputs", "configurations"],
  "Every set of characters, every text, including texts consisting only of removed characters and texts beginning or ending with other white space.",
  "Elimination is reached with one character in one word through neologdn; trimming is not executed by any test.",
  ["src/modifier/character_eliminator.rs", "src/modifier/trim.rs"],
  [("filter by membership", "src/modifier/character_eliminator.rs:modify"), ("trim of the space character only", "src/modifier/trim.rs:modify,modify_with_positions")],
  ["modifiers: character_eliminator / trim in YAML"])

p("C09", "Ligature translation is a function of the mapping and the text",
  "The ligature stage replaces the occurrences of each configured sequence, left to right and without overlap, by its target and leaves the rest of the text unchanged. Longer sequences are applied before shorter ones and equally long ones (in bytes) in code-point order, each over the whole text, so that sequences that overlap, contain or produce one another give the same result on every instance and every run.",
  ["inputs", "configurations", "histories"],
  "Every mapping, in particular those whose sources overlap, are prefixes of one another or occur in targets; every text; every hash seed, instance and process.",
  "Tests use two disjoint ligatures once each; the order in which an unordered map is walked differs per instance and only shows with interacting sources.",
  ["src/modifier/ligature_translator.rs"],
  [("sequential replacement over the mapping", "src/modifier/ligature_translator.rs:modify")],
  ["modifiers: ligature_translator in YAML"])

p("C10", "Reported positions locate every change in the stage's input",
  "Every position a stage reports locates, both by byte offset and byte length and by character offset and character length, a piece of the text that stage received which equals the reported original. For conversion, run-reduction and trimming stages the reported positions are in increasing order, do not overlap, and replacing each reported piece by the reported replacement turns the stage's input into its output. A conversion stage reports exactly the occurrences of mapped characters, a run-reducing stage exactly the runs longer than one.",
  ["inputs", "configurations"],
  "Every conversion table, reduced character and text, with characters of one to four bytes before, inside and after the changed pieces.",
  "No test reads a position at all.",
  ["src/position.rs", "src/modifier/character_converter.rs", "src/modifier/consecutive_character_reducer.rs", "src/modifier/trim.rs"],
  [("offsets collected per distinct character", "src/modifier/character_converter.rs:modify_with_positions"), ("run counter", "src/modifier/consecutive_character_reducer.rs:modify_with_positions"), ("length differences", "src/modifier/trim.rs:modify_with_positions")],
  ["Chanoma::normalize_with_positions(..).modified_records()[i].positions"])

p("C11", "Correspondences and tables combine as sorted sets of items",
  "Adding correspondences or tables yields the union of their items and removing one yields the difference, compared by the whole item (source and target); after an addition the result is duplicate-free, and after either the items are listed in ascending order of source, then target. The operator form, the assigning form, the table methods, the builder methods and additions from a file agree with one another, and the synthesized form and the grouping by target list the same items. No operation changes any operand other than the one it is called on.",
  ["histories", "inputs"],
  "Every history of additions, removals, preset and file additions on several tables, and every set of items including items sharing only their source or only their target, and operands equal to one another.",
  "Tests combine two sets of at most two items in one step; no history, no partial overlap, no table or builder method is compared with the operators.",
  ["src/corr.rs", "src/corr/item.rs", "src/corr/linear.rs", "src/corr/unification.rs", "src/table.rs"],
  [("hash set then sort", "src/corr.rs:Add,AddAssign"), ("filter then sort", "src/corr.rs:Sub,SubAssign"), ("delegation", "src/table.rs:Table::add,remove,TableBuilder::*")],
  ["Correspondence + - += -=", "Table::items", "Table::corr", "TableBuilder::build"],
  [("items", "item list of a table", "src/corr.rs:Synthesized")])

p("C12", "An exported table loads back to the same items",
  "Writing a table in the CSV form below a header line, or in the YAML form, and loading that file gives a table with exactly the same items. This holds for any item texts, including commas, quotes, line breaks, spaces and YAML-special characters. What the export tool prints for the preset loads back as the complete preset in both formats.",
  ["inputs", "configurations"],
  "Every table whose item texts are non-empty, in both formats, including several sources sharing a target and one source with several targets.",
  "One fixed table of plain letters is written and another file is read; nothing is ever read back and the export tool has no test.",
  ["src/file.rs", "src/bin/output.rs", "src/corr.rs"],
  [("grouping by target, one row per target", "src/corr.rs:Synthesized::item_map, src/file.rs:to_csv_writer"), ("first row is a header, last field is the target", "src/file.rs:table_from_csv_path"), ("items mapping", "src/file.rs:SerializedCorr,table_from_yaml_path")],
  ["to_csv_writer", "to_serialized_corr", "table_from_csv_path", "table_from_yaml_path", "output binary"])

p("C13", "The configuration files in effect are exactly the documented ones",
  "If the environment variable CHANOMARC is set, only the file it names is loaded, and loading fails if it is not an existing regular file with extension csv, yaml or yml. Otherwise every existing file among chanomarc and .chanomarc with these extensions is loaded, from $HOME/.config/chanoma, then $HOME, then the current directory, within a directory chanomarc before .chanomarc and csv before yaml before yml, and the stages of the files are concatenated in that order. No configuration file at all gives an instance without stages.",
  ["configurations", "inputs"],
  "Every subset of the 18 locations holding files, directories at those places, every state of CHANOMARC (unset, empty, absolute, relative, missing, a directory, no extension, wrong extension, not UTF-8), HOME set or changed between loads.",
  "Tests look at the generated list of names for one directory and at one existing file; no test has two files at once, and precedence and order are never executed.",
  ["src/configuration.rs", "src/file_extension.rs", "src/chanoma.rs"],
  [("environment variable short-circuits the search", "src/configuration.rs:file_paths,valid_file_path"), ("directory and name enumeration", "src/configuration.rs:auto_load_dirs,auto_load_paths_from_dir,exists_file_paths"), ("concatenation", "src/configuration.rs:load")],
  ["Chanoma::load_rc", "chanoma binary", "Chanoma(rc=True) in Python"])

p("C14", "A configuration file means the stages it lists, in its order",
  "A CSV file means one conversion stage: its first line is a header, and in every other line each field but the last maps to the last. A YAML file means its modifiers in the order listed, followed by one conversion stage for its items, written either as a mapping from target to source (or list of sources) or as the documented list of from/to entries. The same content in the same format means the same thing however it is read: as an explicit configuration file, found automatically, or added to a table. A table read from a file names that file as its origin.",
  ["inputs", "configurations"],
  "Every well-formed CSV and YAML document: any number, order and subset of modifiers, any items, any quoting style, flow or block, extra unrelated keys, anchors and aliases, blank lines, CR-LF line ends, a byte order mark.",
  "One document per format with the keys in one order; the resulting stages are compared as values but never run, and the documented list form is not tested.",
  ["src/file.rs", "src/modifier_kind.rs", "src/configuration.rs", "src/modifier/"],
  [("record reader", "src/file.rs:table_from_csv_path"), ("items and modifiers readers", "src/file.rs:table_from_yaml_path,modifiers_from_yaml_path"), ("key dispatch", "src/modifier_kind.rs:from_yaml_key_value"), ("modifiers first, then the items", "src/configuration.rs:load_file_with_ext")],
  ["Chanoma::from_config_file", "TableBuilder::from_csv_path/from_yaml_path/add_from_csv/add_from_yaml"])

p("C15", "A malformed configuration is reported as an error, never a crash",
  "Loading a configuration that cannot be read or has the wrong shape (missing file, missing or unsupported extension, invalid UTF-8 or syntax, a YAML document that is no mapping, an unknown modifier, a value of the wrong type in it or in the items, or an empty modifier value where a character is required) returns an error and produces no instance. It never panics. In a multi-file load one bad file fails the whole load.",
  ["inputs", "configurations", "fault_sequences"],
  "Every byte content and every YAML value (null, boolean, number, string, sequence, mapping, nested) at every place of the configuration format.",
  "The two negative tests use a missing file; no wrong-shaped document is ever loaded.",
  ["src/file.rs", "src/modifier_kind.rs", "src/modifier/", "src/configuration.rs", "src/file_extension.rs", "src/error.rs"],
  [("shape checks", "src/file.rs:table_from_yaml_path,modifiers_from_yaml_path"), ("value checks", "src/modifier/*.rs:from_yaml_value"), ("path checks", "src/configuration.rs:valid_file_path, src/file_extension.rs:from_path"), ("collecting into a Result", "src/configuration.rs:load")],
  ["Chanoma::from_config_file", "Chanoma::load_rc", "TableBuilder::from_*/add_from_*", "chanoma binary exit status"])

p("C16", "Normalization is pure: no history, instance, seed or thread matters",
  "The result of normalizing a text depends only on the instance's stages and the text. It is the same, including the reported positions and their order, on every call, in whatever order calls are made, on every instance built the same way, in every process, and when many threads share one instance.",
  ["histories", "schedules", "inputs"],
  "Every history of calls on one or several instances, every interleaving of calls from several threads on a shared instance, every hash seed.",
  "Every test makes each call once, from one thread, on a fresh instance.",
  ["src/chanoma.rs", "src/modifier/", "src/table.rs"],
  [("no interior mutability, shared by reference", "src/chanoma.rs:normalize"), ("hash maps walked only where order cannot show", "src/modifier/character_converter.rs, src/modifier/ligature_translator.rs")],
  ["Chanoma::normalize", "Chanoma::normalize_with_positions"])

p("C17", "The command-line tool prints the normalization of its input",
  "The command prints, followed by one newline, the normalization of its argument or, without one, of the first line of standard input without its line feed, and exits 0; it answers as soon as that line has arrived, whatever comes after it. Its stages are those of the configuration in effect, then the preset if asked for, then neologdn if asked for, whatever the order of the flags. Debug output never reaches standard output or changes it, and a configuration error, or an argument the command does not take, gives a non-zero exit and no output.",
  ["inputs", "configurations"],
  "Every combination and order of flags, every argument and standard input (empty, without line feed, several lines, CR-LF), every configuration.",
  "The binary has no test.",
  ["src/main.rs", "src/configuration.rs", "src/chanoma.rs"],
  [("flag handling and stage order", "src/main.rs:main"), ("line reading", "src/main.rs:main")],
  ["chanoma binary: stdout, exit status"])

p("C18", "The Python binding normalizes exactly as the Rust library does",
  "A Python instance has the stages of its configuration file if one is named, otherwise of the automatically found configuration if asked for, otherwise none, followed by its table, the preset and neologdn, each if asked for, in that order. A Python table holds the preset, its CSV and its YAML items as asked for, plus everything added to it, and the character-set classes list the same items as the library. Errors, including arguments of wrong types, are raised as exceptions and change nothing, and an instance is not affected by later changes to the table it was built from.",
  ["inputs", "configurations", "histories"],
  "Every combination of constructor arguments, every history of table additions, every text.",
  "Twelve fixed calls, each with one option; combinations, order, precedence and errors are not tested.",
  ["bindings/python3/src/lib.rs", "bindings/python3/src/characters_set.rs"],
  [("constructor", "bindings/python3/src/lib.rs:Chanoma::new"), ("table constructor and add", "bindings/python3/src/lib.rs:Table"), ("set classes", "bindings/python3/src/characters_set.rs")],
  ["chanoma.Chanoma(...).normalize", "chanoma.Table", "chanoma.characters_set.*"])

p("C19", "Each predefined character set lists exactly its documented pairs",
  "The alphabet, digit, punctuation, kana and CJK-compatibility sets each list exactly the pairs they document: one per source character, the target being the character's compatibility equivalent written as the source documents it; each constant the sets are written with is the one pair it is named for. The sets have no source in common, and a table built from one set converts (for the one-to-one sets) exactly that set's characters and nothing else.",
  ["inputs", "configurations"],
  "Every character of every set, every combination of sets added to or removed from a table, every Unicode character.",
  "No test reads the CJK-compatibility set; the others are seen only in bulk through one fixed string per set.",
  ["src/characters_set/alphabets.rs", "src/characters_set/digits.rs", "src/characters_set/kanas.rs", "src/characters_set/punctuations.rs", "src/characters_set/cjk_compatibilities.rs"],
  [("the literal tables and their sums", "src/characters_set/*.rs:items")],
  ["Corr::items of each set", "Table built from each set"])

p("C20", "A failed load says which file or name is at fault and how",
  "The error of a failed load is about the first file in the order of loading that has a fault, and says a fault which that file has: its kind tells whether the file named by CHANOMARC is missing, the extension is missing or unsupported, a modifier is unknown or wrong, or the content could not be read or was wrong as CSV or YAML, and its message shows the path, extension or modifier name concerned. The command shows this message on standard error and Python's exceptions carry it.",
  ["inputs", "configurations", "fault_sequences"],
  "Every malformed configuration, at every place, combined with every other file (good or bad) in effect, through every way of loading.",
  "The two negative tests only see that a missing file gives some error; no test reads a message or its kind.",
  ["src/error.rs", "src/configuration.rs", "src/file.rs", "src/file_extension.rs", "src/modifier_kind.rs", "src/main.rs", "bindings/python3/src/lib.rs"],
  [("error kinds and messages", "src/error.rs:Error"), ("path checks", "src/configuration.rs:valid_file_path, src/file_extension.rs:from_path"), ("order of loading", "src/configuration.rs:load"), ("errors handed on", "src/main.rs:main, bindings/python3/src/lib.rs")],
  ["chanoma::error::Error of Chanoma::from_config_file, Chanoma::load_rc, TableBuilder::from_*/add_from_*", "stderr of the chanoma binary", "message of Python exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
