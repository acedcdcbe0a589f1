"""The properties, and for each the functions whose contracts decide it (its cone)."""
M = "modifier::"
CORR = [r"corr::Corr::.*", r"corr::Synthesized.*", r"corr::Correspondence(?!@AsRef).*", r"corr::item::Item::new", r"corr::linear::.*", r"corr::unification::.*"]
TABLE = [r"table::Table(?!Builder).*", r"table::TableBuilder(::|@)(?!from_yaml|from_csv|add_from).*"]
SETS = [r"characters_set::(?!cjk).*"]
CJK = [r"characters_set::cjk.*"]
MODIFY = [M + r".*@Modifier::modify"]
CONV = [M + "character_converter::CharacterConverter::from_tables", M + "character_converter::CharacterConverter::from_map"]


def mod(m, t, *more):
    return [M + m + "::" + t + "@Modifier::modify"] + [M + m + "::" + t + "::" + x for x in more]


P = []


def prop(id, title, statement, text, why, files, mech, cone, over=("inputs",), observe=(), state=(), hook=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mech=mech,
                  cone=list(cone), observe=list(observe), state=list(state), hook=hook, level=level))


prop("C01", "Character conversion replaces exactly the mapped characters",
     "Normalizing with a character converter replaces every occurrence of a mapped character by its mapped character and leaves every other character as it is, in the same order. "
     "The output therefore has exactly as many characters as the input, and a replacement is never converted again, for every mapping (including chains, cycles and characters of any UTF-8 length) and every text.",
     "every character map and every text",
     "The tests try a handful of short texts with one or two maps; the claim is about every map and every text.",
     ["src/modifier/character_converter.rs"], [("CharacterConverter::modify", "src/modifier/character_converter.rs")],
     mod("character_converter", "CharacterConverter", "from_map"), observe=["the text a character_converter modifier returns"])
prop("C02", "Character elimination removes exactly the listed characters",
     "Normalizing with a character eliminator removes every occurrence of every listed character and nothing else, keeping the other characters in their order. This holds for every set of characters and every text.",
     "every set of characters and every text", "The tests use one set and a few short texts.",
     ["src/modifier/character_eliminator.rs"], [("CharacterEliminator::modify", "src/modifier/character_eliminator.rs")],
     mod("character_eliminator", "CharacterEliminator", "from_chars", "from_char"), observe=["the text a character_eliminator modifier returns"])
prop("C03", "Consecutive reduction collapses each run to one character and nothing else",
     "Normalizing with a consecutive character reducer replaces every maximal run of its character by a single one and leaves all other characters, including runs of other characters, as they are. "
     "This holds for every character, for runs of any length and at any place in the text, including its start and end.",
     "every character and every text", "The tests use a few short texts; run lengths, run positions and multi-byte characters are unbounded.",
     ["src/modifier/consecutive_character_reducer.rs"], [("ConsecutiveCharacterReducer::modify", "src/modifier/consecutive_character_reducer.rs")],
     mod("consecutive_character_reducer", "ConsecutiveCharacterReducer", "new"), observe=["the text a consecutive_character_reducer modifier returns"])
prop("C04", "Only spaces between ASCII letters or digits survive dotted-space elimination",
     "Normalizing with the dotted space eliminator removes every half-width space except that a run of spaces with an ASCII letter or digit directly on both sides becomes one space. Every character that is no half-width space is kept in order.",
     "every text", "The tests sample a few texts; the rule depends on the neighbours of runs of any length at any position.",
     ["src/modifier/dotted_space_eliminator.rs"], [("DottedSpaceEliminator::modify", "src/modifier/dotted_space_eliminator.rs")],
     mod("dotted_space_eliminator", "DottedSpaceEliminator", "new"), observe=["the text a dotted_space_eliminator modifier returns"])
prop("C05", "Ligature translation is deterministic and applies its pairs in ascending order",
     "Normalizing with a ligature translator replaces, for each configured pair in ascending order of its source string (by code point), every occurrence of the source from left to right without overlap by the target. "
     "The result depends on the pairs and the text alone: it is the same in every run and for every instance built from the same pairs, also when pairs overlap or feed each other.",
     "every set of pairs, every text, every hash seed", "The tests use disjoint pairs, for which any order gives the same result.",
     ["src/modifier/ligature_translator.rs"], [("LigatureTranslator::modify sorts its pairs", "src/modifier/ligature_translator.rs")],
     mod("ligature_translator", "LigatureTranslator", "from_map"), observe=["the text a ligature_translator modifier returns"])
prop("C06", "Trim removes exactly the half-width spaces at both ends",
     "Normalizing with trim removes all half-width spaces at the start and at the end of the text and nothing else: other white space and inner spaces stay. A text of nothing but spaces becomes empty.",
     "every text", "The tests sample a few texts.",
     ["src/modifier/trim.rs"], [("Trim::modify", "src/modifier/trim.rs")],
     mod("trim", "Trim", "new"), observe=["the text a trim modifier returns"])
prop("C07", "A normalizer applies its modifiers once each, in registration order",
     "Normalizing a text applies every registered modifier exactly once, in the order of registration, each to the output of the one before; a normalizer without modifiers returns the text unchanged. "
     "Creating a normalizer from the preset, from neologdn or from a table registers exactly that one modifier, adding one appends it after those already there, and normalizing changes nothing about the normalizer.",
     "every sequence of registrations and every text", "The tests register one or two modifiers that mostly commute.",
     ["src/chanoma.rs", "src/modifier_kind.rs"], [("Chanoma::normalize folds over its modifiers", "src/chanoma.rs"), ("dispatch", "src/modifier_kind.rs")],
     [r"chanoma::Chanoma(?!::(load_rc|from_config_file)).*", r"modifier_kind::ModifierKind@Modifier::.*", M + r".*::ModifierKind@From<.*", M + r"ModifiedRecords::.*", M + r"ModifiedRecord::.*"] + CONV,
     over=("inputs", "histories"), observe=["Chanoma::normalize", "Chanoma::normalize_with_positions"])
prop("C08", "Normalizing with positions yields the same text and a faithful step record",
     "For every normalizer and text, normalizing with positions ends in exactly the text that plain normalizing returns, also while logging is enabled. "
     "It yields one record per registered modifier, in order; each record names its modifier and holds the text and positions that this modifier produces from the text of the record before, so that the last record's text is the result.",
     "every sequence of modifiers and every text", "The tests check a few records of one or two modifiers.",
     ["src/chanoma.rs", "src/modifier.rs", "src/modifier_kind.rs", "src/modifier/"],
     [("normalize_with_positions", "src/chanoma.rs"), ("modify_with_positions of every modifier", "src/modifier/")],
     [r"chanoma::Chanoma::(normalize|normalize_with_positions)", r"modifier_kind::ModifierKind@Modifier::.*", M + r".*@Modifier::.*", M + r"ModifiedRecords?::.*", M + r".*::ModifierKind@From<.*",
      M + r"[a-z_]+::[A-Za-z]+::(new|from_map|from_chars|from_char)", M + r"character_converter::CharPos.*", r"position::.*"],
     over=("inputs", "histories"), observe=["Chanoma::normalize_with_positions", "ModifiedRecords", "ModifiedRecord"])
prop("C09", "Reported positions are exact and complete",
     "For the character converter, the consecutive character reducer and trim, the positions of a record list every change of that step exactly once, in ascending order and without overlap: the replaced part of the input, its replacement, its byte offset and length and its character offset and length. "
     "Applying the listed replacements to the step's input gives the step's output, and parts that are not listed are unchanged.",
     "every parameter of these modifiers and every text", "The tests check short texts with few occurrences; offsets depend on the byte widths of everything before.",
     ["src/modifier/character_converter.rs", "src/modifier/consecutive_character_reducer.rs", "src/modifier/trim.rs", "src/position.rs"],
     [("modify_with_positions", "src/modifier/character_converter.rs"), ("modify_with_positions", "src/modifier/consecutive_character_reducer.rs"), ("modify_with_positions", "src/modifier/trim.rs")],
     [M + r"(character_converter::CharacterConverter|consecutive_character_reducer::ConsecutiveCharacterReducer|trim::Trim)@Modifier::modify_with_positions",
      M + r"character_converter::CharPos.*", r"position::.*", M + "ModifiedRecord::new", M + "character_converter::CharacterConverter::from_map", M + "consecutive_character_reducer::ConsecutiveCharacterReducer::new", M + r"(character_converter|trim|consecutive_character_reducer)::ModifierKind@From<.*"],
     observe=["ModifiedRecord::positions"])
prop("C10", "The neologdn normalizer is the documented composition",
     "The neologdn modifier first converts every preset character except the full-width equal sign, the choonpu-like characters to ー and the hyphen-like characters to -, then collapses runs of ー, then applies the dotted-space rule, removes the six tilde characters, joins a kana with a following full-width dakuten or handakuten mark into the voiced kana, and applies the dotted-space rule again. "
     "This holds for every text.",
     "every text", "The tests check about twenty sentences.",
     ["src/modifier/neologdn.rs", "src/modifier/", "src/characters_set/", "src/corr.rs", "src/table.rs"], [("Neologdn::modify and Neologdn::new", "src/modifier/neologdn.rs")],
     [M + r"neologdn::.*", r"chanoma::Chanoma::(neologdn|use_neologdn|normalize)", M + "trim::Trim::new"] + mod("character_converter", "CharacterConverter", "from_tables") + mod("character_eliminator", "CharacterEliminator", "from_chars")
     + mod("consecutive_character_reducer", "ConsecutiveCharacterReducer", "new") + mod("dotted_space_eliminator", "DottedSpaceEliminator", "new") + mod("ligature_translator", "LigatureTranslator", "from_map") + SETS + CORR + [r"table::Table::from_corr"],
     observe=["Chanoma::neologdn().normalize", "the neologdn modifier"])
prop("C11", "Table algebra: union, difference and conversion by later items",
     "Adding one correspondence to another yields the items of both, each once, in ascending order; subtracting yields exactly the items of the first that are not in the second, in ascending order, whether done with operators, on tables or through the table builder, and the operands' other items are unaffected. "
     "A converter made from tables maps the first character of each item to the first character of its target, a later item replacing an earlier one with the same source and items with an empty side being ignored.",
     "all lists of items", "The tests add and subtract lists of two or three items.",
     ["src/corr.rs", "src/corr/", "src/table.rs", "src/modifier/character_converter.rs"],
     [("Add, AddAssign, Sub, SubAssign", "src/corr.rs"), ("Table, TableBuilder", "src/table.rs"), ("from_tables", "src/modifier/character_converter.rs")],
     CORR + TABLE + CONV[:1], over=("inputs", "histories"), observe=["Corr::items", "Table::items", "Chanoma::from_table"])
prop("C12", "The preset tables hold exactly the documented pairs",
     "Every predefined character constant is exactly the pair its documentation states, and the predefined sets of digits, punctuation, alphabets, kana and CJK compatibility characters contain exactly their documented pairs, each once, in ascending order. "
     "The full preset is the union of digits, punctuation, alphabets and kana, without the CJK compatibility characters; normalizing with it converts exactly these characters.",
     "every character", "The tests look at single entries; a missing or wrong pair among the several hundred goes unnoticed.",
     ["src/characters_set.rs", "src/characters_set/"], [("items() of every set", "src/characters_set/"), ("All::items", "src/characters_set.rs")],
     SETS + CJK + CORR + [r"chanoma::Chanoma::(preset|use_preset|all_characters_set)", r"table::TableBuilder::(new|preset|build|from_table)", r"table::Table::(new|add|from_corr)", r"table::TableBuilder@Default.*", "table::Table@Default.*"] + CONV[:1],
     observe=["Corr::items of the predefined sets", "Chanoma::preset().normalize"])

LOADCONV = [r"configuration::Configuration::(load_items_to_character_converter|load_modifiers|load_file_with_ext|from_path)", r"chanoma::Chanoma::from_config_file",
            M + "character_converter::CharacterConverter::(from_tables|from_map)", r"file_extension::FileExtension.*"]
ITEMS = [r"corr::item::Item::new", r"corr::Synthesized::new", r"corr::Correspondence::new", r"table::Table::(from_corr|corr|items|add)"]
CSV = [r"file::table_from_csv_path", r"table::TableBuilder::(from_csv_path|add_from_csv)"]
YAMLT = [r"file::(yaml_str|table_from_yaml_path)", r"table::TableBuilder::(from_yaml_path|add_from_yaml)"]
YAMLM = [r"file::modifiers_from_yaml_path", M + r".*from_yaml_value", M + r"(yaml_str|yaml_char|first_char)", r"modifier_kind::ModifierKind::from_yaml_key_value", M + r"consecutive_character_reducer::ConsecutiveCharacterReducer@FromStr.*"]
prop("C13", "CSV files load exactly the pairs of their records",
     "Loading a CSV file skips its first record, the header, and makes of each further record, whatever its number of fields, one item per field but the last, from that field to the last one, verbatim and in file order. "
     "A builder that adds a CSV file holds the union of its items and those, and after an error the items it had; a configuration from a CSV file is the one character conversion of these items. A file that cannot be read gives an error.",
     "every file content", "The tests load one file of three records.",
     ["src/file.rs", "src/table.rs", "src/configuration.rs"], [("table_from_csv_path", "src/file.rs"), ("from_csv_path, add_from_csv", "src/table.rs"), ("load_items_to_character_converter", "src/configuration.rs")],
     CSV + ITEMS + LOADCONV, observe=["table_from_csv_path", "TableBuilder::from_csv_path", "TableBuilder::add_from_csv", "Chanoma::from_config_file"])
prop("C14", "YAML files load exactly the items and modifiers they list",
     "Loading a YAML file yields, in document order, one item per entry of a list under items (from, to) or per source of a mapping under items (target to one source or a list of sources), and one modifier per entry under modifiers with exactly the parameters given there. "
     "A configuration from a YAML file applies its modifiers in document order and the conversion of its items last; a missing items or modifiers key counts as empty.",
     "every document", "The tests load one document.",
     ["src/file.rs", "src/table.rs", "src/configuration.rs", "src/modifier_kind.rs", "src/modifier.rs", "src/modifier/"],
     [("table_from_yaml_path, modifiers_from_yaml_path", "src/file.rs"), ("from_yaml_key_value", "src/modifier_kind.rs"), ("from_yaml_value of every modifier", "src/modifier/"), ("load_file_with_ext", "src/configuration.rs")],
     YAMLT + YAMLM + ITEMS + LOADCONV + [M + r"[a-z_]+::[A-Za-z]+::(new|from_chars|from_map)"], observe=["table_from_yaml_path", "modifiers_from_yaml_path", "TableBuilder::from_yaml_path", "TableBuilder::add_from_yaml", "Chanoma::from_config_file"])
prop("C15", "An exported table loads back as the same table",
     "Exporting a table as CSV writes one record per target, ascending by target, with the sources of that target in table order followed by the target; exporting as YAML writes under items a mapping from each target to the list of its sources. "
     "Loading the CSV behind a header record, or the YAML, gives exactly the exported items, whatever characters they contain; what the program output prints loads as exactly the preset.",
     "every list of items", "The test exports one table of five items and compares the text.",
     ["src/file.rs", "src/corr.rs", "src/bin/output.rs"], [("to_csv_writer, SerializedCorr::from", "src/file.rs"), ("Synthesized::item_map", "src/corr.rs"), ("Format::output", "src/bin/output.rs")],
     [r"corr::Synthesized::item_map", r"corr::Synthesized@From.*", r"file::(to_csv_writer|to_serialized_corr|SerializedCorr@From.*)", r"bin_output::.*",
      r"table::TableBuilder::(new|preset|build|add_corr)", r"table::TableBuilder@Default.*", "table::Table@Default.*", r"table::Table::new"] + CSV[:1] + YAMLT[:1] + ITEMS + SETS, observe=["to_csv_writer", "to_serialized_corr", "the program output"])
prop("C16", "Exactly the documented configuration files are discovered and applied in order",
     "When CHANOMARC is set, only the file it names is loaded, and it is an error when that is no file or has no csv, yaml or yml extension. Otherwise every existing file named chanomarc or .chanomarc with one of these extensions in $HOME/.config/chanoma, $HOME and the current directory is loaded, "
     "in this order of directories, within a directory chanomarc before .chanomarc and csv before yaml before yml. The modifiers of all loaded files are applied in that order, and an error in any of them fails the whole.",
     "every environment and every content of the directories", "The tests check single paths in directories without configuration files.",
     ["src/configuration.rs", "src/chanoma.rs", "src/file_extension.rs"], [("Configuration::load, file_paths, auto_load_dirs, auto_load_paths_from_dir", "src/configuration.rs"), ("load_rc", "src/chanoma.rs")],
     [r"configuration::.*", r"chanoma::Chanoma::load_rc", r"file_extension::FileExtension.*"], over=("inputs", "configurations"), observe=["Chanoma::load_rc"],
     state=[("environment", "CHANOMARC, HOME, the current directory and the files there", "src/configuration.rs")])
prop("C17", "The kind of a file is decided by its exact extension",
     "A path is a CSV file exactly when its extension is csv and a YAML file exactly when it is yaml or yml, in lower case; every other path, with another extension, none, or one that is no valid text, is an error.",
     "every path", "The tests try a few paths.",
     ["src/file_extension.rs"], [("FileExtension::from_path", "src/file_extension.rs")], [r"file_extension::FileExtension.*"], observe=["FileExtension::from_path", "Chanoma::from_config_file"])
prop("C18", "A bad configuration is an error, never a panic or a partial result",
     "For every path and every file content, loading tables, modifiers or a configuration returns a value or an error and never panics. "
     "It is an error when the file cannot be opened or decoded, is no valid YAML, or holds in items or modifiers a value of another type than documented, an empty character, a missing from or to, or an unknown modifier; nothing of such a file is applied.",
     "every file content and path", "The tests load a missing file.",
     ["src/file.rs", "src/table.rs", "src/configuration.rs", "src/modifier_kind.rs", "src/modifier.rs", "src/modifier/"],
     [("every failure is returned", "src/file.rs"), ("yaml_str, yaml_char, first_char", "src/modifier.rs"), ("from_yaml_key_value", "src/modifier_kind.rs")],
     CSV + YAMLT + YAMLM + LOADCONV + [r"configuration::Configuration::(load|file_paths)", r"chanoma::Chanoma::load_rc"] + ITEMS, observe=["table_from_csv_path", "table_from_yaml_path", "modifiers_from_yaml_path", "Chanoma::from_config_file", "Chanoma::load_rc"])
prop("C19", "The Python module behaves as the library",
     "Chanoma(...) in Python normalizes like the library: the modifiers of configfile, or without one and with rc those of the discovered configuration, then the table's conversion, the preset and neologdn, each only where asked for. "
     "Table(...) and add hold the union of the preset, the CSV file, the YAML file and the added items, and a character set object has exactly the items of its set. A file that cannot be loaded raises OSError; a failed add leaves the table as it was.",
     "every combination of arguments, every table, text and file", "The tests use one argument at a time and one line of text.",
     ["bindings/python3/src/lib.rs", "bindings/python3/src/characters_set.rs"], [("Chanoma::new, Table::new, Table::add", "bindings/python3/src/lib.rs"), ("new of the five sets", "bindings/python3/src/characters_set.rs")],
     [r"py::.*", r"chanoma::Chanoma::(new|add_table|use_preset|use_neologdn|normalize|load_rc|from_config_file)", r"table::TableBuilder::(new|preset|build|add_from_csv|add_from_yaml|add_corr)", r"table::Table::(new|add|from_corr)", r"corr::Synthesized::new", r"corr::Correspondence::new"],
     over=("inputs", "configurations"), observe=["chanoma.Chanoma.normalize", "chanoma.Table.add", "chanoma.characters_set"])
prop("C20", "The program chanoma prints the normalized text and nothing else",
     "The program loads the discovered configuration, appends the preset with -p and neologdn with -n, in this order, and prints the normalized text followed by one line feed and nothing else. The text is its argument as given or, without one, the first line of standard input without its line feed. "
     "When the configuration cannot be loaded it prints nothing and fails.",
     "every text, every combination of options and every configuration", "The tests do not run the program.",
     ["src/main.rs", "src/chanoma.rs"], [("main", "src/main.rs"), ("use_preset, use_neologdn, load_rc", "src/chanoma.rs")],
     [r"bin_main::.*", r"chanoma::Chanoma::(use_preset|use_neologdn|normalize|load_rc|add|add_modifier)"], over=("inputs", "configurations"), observe=["standard output and exit status of chanoma"])
for _id in ("C15", "C20"):
    next(p for p in P if p["id"] == _id)["cli"] = True
next(p for p in P if p["id"] == "C19")["py"] = True
