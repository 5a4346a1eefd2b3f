"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

V = "variantlib/"
# ---------------------------------------------------------------- resolution
p("C01", "The resolved list offers exactly the supported variants, each once",
  "For any index and platform, variant resolution returns labels of that index such that a variant is offered if and only if, for every feature it uses, at least one of the values it lists for that feature is supported (by a provider's answer, by metadata recorded ahead of time, or as a dependency version); two labels describing identical properties yield one entry. The null variant is always offered (as 'null') whether or not the index lists it, and no label is ever returned for a variant whose properties are not supported.",
  ["inputs", "configurations"], "all indexes, all sets of supported properties, all user priorities",
  "Tests sample a handful of indexes with one or two namespaces; OR-within-feature/AND-across-features, same feature name in two namespaces, duplicate labels and short-hash collisions are not combined.",
  [V+"api.py", V+"resolver/filtering.py", V+"resolver/lib.py"],
  [("filter_variants_by_property", V+"resolver/filtering.py"), ("null variant insertion", V+"resolver/lib.py"), ("label map", V+"api.py get_variants_by_priority")],
  [("supported_vprops", "properties the platform supports", V+"api.py")], ["get_variants_by_priority", "sort_and_filter_supported_variants", "filter_variants"])
p("C02", "Offered variants are ordered by namespace, then feature, then value rank",
  "Supported features are ranked by namespace priority, then feature priority, then the providers' own order; each variant is ranked on every feature by its best supported value and a variant that lacks the feature ranks last there; variants are ordered by comparing these ranks from the most to the least important feature. The null variant is therefore last, and variants that tie keep the order in which they were listed; a property whose namespace has no priority at all is reported as a validation error instead of being ordered arbitrarily.",
  ["inputs", "configurations"], "all indexes, priority lists and supported-property lists (including priorities naming unsupported or unknown things)",
  "Tests compare a few hand-sorted lists; they do not exercise multi-value best-rank, unlisted features, non-adjacent features or ties.",
  [V+"resolver/sorting.py", V+"resolver/lib.py"],
  [("sort_variant_properties", V+"resolver/sorting.py"), ("sort_variants_descriptions rank tuples", V+"resolver/sorting.py")],
  (), ["get_variants_by_priority", "sort_variant_properties", "sort_variants_descriptions"])
p("C03", "User priorities override package priorities, which override provider order",
  "At each of the three levels (namespaces, features of a namespace, values of a feature) the effective order is the user's configured list first, then the package's default list without what the user already ranked, then whatever remains in the order the provider reports it; ranking something at one place never drops, duplicates or reorders anything else. Combining priority sources never changes the sources.",
  ["inputs", "configurations"], "all user configurations, package priorities and provider orders, with overlapping, partial, empty or missing lists",
  "test_utils checks a few fixed merges of lists; nothing checks end to end that the user's file outranks the package for every level.",
  [V+"utils.py", V+"api.py", V+"resolver/sorting.py"],
  [("aggregate_*_priorities", V+"utils.py")], (), ["aggregate_namespace_priorities", "aggregate_feature_priorities", "aggregate_property_priorities", "get_variants_by_priority"])
p("C04", "Explicit exclusions always remove matching variants and nothing else",
  "When the caller forbids namespaces, features or properties, no offered variant uses a forbidden namespace or feature, and a forbidden value never counts as supported even if a provider supports it; the remaining variants are exactly those supported without it, and their relative order is the order they are ranked in without the exclusion. Filtering only ever removes variants: it keeps the first of each set of duplicates, keeps the order, and never changes a description.",
  ["inputs"], "all variant lists and all sets of forbidden namespaces, features and properties",
  "Tests forbid single items; prefix-related names, the same feature name under two namespaces and forbidding one of several values of a feature are not covered.",
  [V+"resolver/filtering.py", V+"resolver/lib.py"],
  [("filter_variants_by_namespaces/features/property", V+"resolver/filtering.py")], (), ["filter_variants", "filter_variants_by_namespaces", "filter_variants_by_features", "filter_variants_by_property", "remove_duplicates", "sort_and_filter_supported_variants"])
p("C05", "Installed and requested dependency versions match as ABI properties",
  "For every installed distribution, and for every 'name==version' entry of VARIANT_ABI_DEPENDENCY (which overrides the installed version of that project), exactly the properties abi_dependency :: <canonical name with underscores> :: major, major.minor and major.minor.micro are supported, and no others of that namespace. Entries and distributions that are malformed are ignored without affecting the rest, and the abi_dependency namespace ranks below all namespaces with an explicit priority unless it is ranked itself.",
  ["inputs", "configurations"], "all environments (sets of distributions) and all values of the environment variable",
  "Tests use two mocked packages and well-formed entries only.",
  [V+"resolver/lib.py"], [("inject_abi_dependency", V+"resolver/lib.py"), ("_generate_version_matches", V+"resolver/lib.py")],
  [("VARIANT_ABI_DEPENDENCY", "user overrides", "process environment")], ["get_variants_by_priority", "sort_and_filter_supported_variants", "check_variant_supported"])
p("C06", "Checking a single variant agrees with the resolved list",
  "For the same index, environment and optional-provider selection, asking whether one variant description is supported answers yes exactly when that description would be offered by variant resolution. Asking without an explicit description answers for the only variant of the metadata, and is an error when the metadata does not hold exactly one.",
  ["inputs", "configurations"], "all indexes, all variants in them, all provider selections",
  "The two entry points are tested separately on different examples.",
  [V+"api.py", V+"resolver/lib.py"], [("check_variant_supported", V+"api.py"), ("get_variants_by_priority", V+"api.py")], (), ["check_variant_supported", "get_variants_by_priority"])
p("C07", "Queries never modify what the caller passed in and repeat identically",
  "Resolution, filtering, sorting, validation, hashing, metadata generation and index parsing leave every list, dictionary and object the caller passed in unchanged, even when they fail. Repeating the same query, with the same objects or equal ones, in the same process gives the same answer.",
  ["inputs", "histories"], "all calls, in any sequence",
  "Tests build fresh inputs for every call and never compare them afterwards.",
  [V+"api.py", V+"resolver/lib.py", V+"models/variant_info.py", V+"plugins/loader.py"],
  [("copies before injection", V+"resolver/lib.py"), ("copy_as_kwargs", V+"models/variant_info.py")], (), ["all public functions"])
# ---------------------------------------------------------------- identity/text
p("C08", "A variant's hash is a function of its set of properties only",
  "The hash of a variant is the first 8 hex digits of SHA-256 over its properties sorted by namespace, feature and value, each written 'namespace :: feature :: value' and terminated by a newline; it is the same whatever order, spelling of whitespace, container or command-line grouping the properties came in. A description never holds the same property twice (that is a validation error) and always presents its properties in sorted order.",
  ["inputs"], "all property sets in all orders and via every construction route",
  "Tests check fixed vectors and one shuffled list; separator, ordering and duplicate handling are sampled.",
  [V+"models/variant.py", V+"commands/get_variant_hash.py"], [("VariantDescription.hexdigest", V+"models/variant.py"), ("sorted properties", V+"models/variant.py __post_init__")], (), ["VariantDescription.hexdigest", "get_variant_label", "CLI get-variant-hash"])
p("C09", "Property and feature text is accepted iff well formed and round-trips",
  "Text is accepted as a property (or feature) exactly when, ignoring whitespace around the whole and around each '::', it has exactly three (two) non-empty parts of lower-case ASCII letters, digits and underscores, the value also allowing dots; every other text, and any other type or content given directly, raises a validation error. Writing a property or feature as text and reading it back, and serializing or converting a description to its dictionary form and back, give an equal object.",
  ["inputs"], "all strings",
  "Tests and hypothesis strategies generate mostly valid strings; boundary characters, non-ASCII whitespace/letters/digits, newlines and nested separators are not enumerated.",
  [V+"constants.py", V+"models/variant.py", V+"validators/base.py"], [("VALIDATION_*_REGEX fullmatch", V+"constants.py"), ("from_str", V+"models/variant.py")], (), ["VariantProperty.from_str", "VariantFeature.from_str", "VariantDescription.from_dict/to_dict/serialize/deserialize"])
p("C10", "Labels: null iff no properties, custom labels are 1-16 safe characters",
  "A variant without properties always has the label 'null' and no other variant can have it; without a custom label other variants are labelled by their hash, and a custom label is used verbatim if it is 1 to 16 characters out of lower-case ASCII letters, digits, '.' and '_', and is a validation error otherwise. A file name is recognised as a variant wheel exactly when it is a well-formed wheel name followed by such a label, and removing the label gives the base wheel name.",
  ["inputs"], "all descriptions and label strings; all file names",
  "Tests cover three or four labels; boundary lengths, reserved-name cases and build-tag/label ambiguity in file names are not covered.",
  [V+"api.py", V+"constants.py", V+"variants_json.py"], [("get_variant_label", V+"api.py"), ("VALIDATION_WHEEL_NAME_REGEX", V+"constants.py")], (), ["get_variant_label", "VariantDistInfo", "CLI make-variant, analyze-wheel"])
p("C11", "The marker environment lists exactly the variant's own names",
  "The environment used to evaluate dependency markers holds exactly the set of namespaces, of 'namespace :: feature' and of 'namespace :: feature :: value' texts occurring in the variant, and the label if and only if one is given; so a marker asking for membership of a namespace, feature or property is true exactly when the variant has it.",
  ["inputs"], "all variants and labels", "One example is tested.",
  [V+"api.py"], [("get_variant_environment_dict", V+"api.py")], (), ["get_variant_environment_dict", "packaging Marker.evaluate"])
# ---------------------------------------------------------------- metadata
p("C12", "Variant metadata is accepted iff it satisfies the documented rules",
  "A variants index, a wheel's variant.json or a pyproject variant table is accepted exactly when its nested tables hold only known keys (unknown top-level entries are ignored), all values have the right type and syntax, the namespace priorities name exactly the declared providers, install-time providers have requirements, static properties are given for exactly the providers that need them, with feature priorities when several features are static, and labels fit their descriptions (a wheel's file holds exactly one variant, under the label expected). Anything else is rejected with a validation error and never yields partial data.",
  ["inputs"], "all JSON/TOML documents of the right top-level type",
  "Tests break one rule at a time on one sample document; combinations (rule A broken only in the second provider, static properties for one of several providers, deep unexpected keys) are not enumerated.",
  [V+"models/variant_info.py", V+"variants_json.py", V+"variant_dist_info.py", V+"pyproject_toml.py", V+"validators/keytracking.py"],
  [("_process_common", V+"models/variant_info.py"), ("KeyTrackingValidator", V+"validators/keytracking.py")], (), ["VariantsJson", "VariantDistInfo", "VariantPyProjectToml"])
p("C13", "Metadata survives writing, reading and conversion unchanged",
  "Serializing accepted metadata and parsing the result gives equal metadata (priorities, providers with all their attributes, static properties, variants), the serialized form is the same for equal metadata whatever order its mappings were written in, and converting between the pyproject, index and wheel forms carries over all common information. Defaults left out when writing mean the same when read.",
  ["inputs"], "all valid metadata documents and conversion chains",
  "Tests round-trip one or two sample documents.",
  [V+"variants_json.py", V+"models/variant_info.py", V+"variant_dist_info.py", V+"pyproject_toml.py"], [("to_str / _provider_info_to_json / _priorities_to_json", V+"variants_json.py"), ("copy_as_kwargs", V+"models/variant_info.py")], (), ["VariantsJson.to_str", "conversion constructors"])
p("C14", "Converted metadata objects are independent of their source",
  "After converting metadata from one form to another, or merging one wheel's metadata into an index, later changes to either object (its lists, mappings, providers or variants) never show up in the other, and generating a wheel's metadata never changes the project's.",
  ["histories"], "all sequences of conversions, merges and mutations",
  "Tests mutate one field of one conversion.",
  [V+"models/variant_info.py", V+"variants_json.py"], [("copy_as_kwargs", V+"models/variant_info.py")], (), ["VariantsJson(...)", "VariantDistInfo(...)", "VariantPyProjectToml(...)", "merge", "make_variant_dist_info"])
p("C15", "Merging variants into an index is all-or-nothing and loses nothing",
  "Merging one wheel's metadata into an index either succeeds, giving the index exactly the union of the variants with all other information unchanged, or raises a validation error and leaves the index exactly as it was; it fails exactly when priorities, providers or static properties differ or a label would change its meaning. Merging is idempotent, and the final variants do not depend on the order of merges.",
  ["histories", "inputs"], "all sequences of merges of consistent and inconsistent metadata",
  "Tests merge two samples and check that errors are raised, not what the index holds afterwards.",
  [V+"variants_json.py"], [("VariantsJson.merge", V+"variants_json.py")], (), ["VariantsJson.merge"])
p("C16", "Provider requirement listing names exactly the selected providers' needs",
  "The requirements to install for a set of namespaces (or all of them) are exactly the union of the requirements of the selected providers, leaving out those queried only at build time when asked to, and selecting an undeclared namespace is an error. The object a provider is loaded from is its plugin-api if given and otherwise the module named after its first requirement.",
  ["inputs"], "all metadata and namespace selections", "One example is tested.",
  [V+"models/variant_info.py"], [("get_provider_requires", V+"models/variant_info.py"), ("ProviderInfo.object_reference", V+"models/variant_info.py")], (), ["get_provider_requires", "object_reference"])
# ---------------------------------------------------------------- wheels
p("C17", "make-variant only adds the variant metadata and keeps RECORD consistent",
  "Given a valid wheel, make-variant creates a wheel with the same base name plus the label, whose members are those of the input, byte for byte, in order and with their file modes, except one variant.json in the dist-info directory holding exactly the requested variant, label and project metadata, and a RECORD that lists that file once with its true hash and size and keeps all other rows; the input is unchanged. Making a variant from a wheel that is already one replaces the old metadata, and nothing is created when the request is refused.",
  ["inputs"], "all wheels (any members, compression, RECORD layout), properties and labels",
  "Tests use one tiny wheel; unusual RECORD rows, member orders, pre-existing variant.json and names are not covered.",
  [V+"commands/make_variant.py"], [("zip member copy and RECORD rewrite", V+"commands/make_variant.py")], (), ["CLI make-variant"])
p("C18", "unmake-variant exactly undoes make-variant",
  "For any valid non-variant wheel and any variant made from it, unmaking the variant gives a wheel with the original file name and the same members with the same contents, RECORD included (up to a missing final newline); unmaking a non-variant wheel creates nothing and the input is never modified. The same holds after any sequence of making variants of variants.",
  ["histories", "inputs"], "all wheels and all make/unmake sequences",
  "Tests unmake one wheel.",
  [V+"commands/unmake_variant.py", V+"commands/make_variant.py"], [("RECORD row removal", V+"commands/unmake_variant.py")], (), ["CLI unmake-variant"])
p("C19", "Output files appear complete or not at all, and never damage inputs",
  "Whatever goes wrong while a wheel or index is being written (an error at any write, a corrupt input, or the process being killed at any point), the output path holds either what it held before or the complete new file, and the input stays intact; this includes writing over the input's own path. After an error that is reported, no other new file is left behind in the output directory.",
  ["crash_points", "fault_sequences"], "all fault and kill points during make-variant, unmake-variant and index writing",
  "No test injects a fault.",
  [V+"commands/make_variant.py", V+"commands/unmake_variant.py", V+"commands/generate_index_json.py", V+"commands/add_wheel_to_index_json.py", V+"commands/utils.py"],
  [("atomic_output", V+"commands/utils.py")], (), ["file system after the command ended or was killed"])
p("C20", "A generated index lists exactly the directory's valid variant wheels",
  "For each project and version in the directory, the generated index holds exactly the labels of its variant wheels whose metadata is present, valid, matches the file name and is consistent with the first wheel (in file-name order), each with its own properties, together with their common metadata; other files, plain wheels and rejected wheels neither appear in it nor affect it, and different projects or versions never mix. The result does not depend on the order in which the directory is listed, and regenerating it changes nothing.",
  ["inputs", "histories"], "all directories of wheels",
  "Tests index one directory of three wheels of a single project.",
  [V+"commands/generate_index_json.py", V+"variants_json.py"], [("per-namever accumulation", V+"commands/generate_index_json.py")], (), ["CLI generate-index-json"])
p("C21", "Adding wheels one by one builds the same index as generating it at once",
  "Adding mutually consistent variant wheels to an index one at a time, in any order, gives the same index as generating it from the whole directory; a wheel that is not a variant, is invalid or inconsistent with the index is refused and leaves the index file untouched, an existing output is replaced only when overwriting is allowed, and adding a wheel again changes nothing.",
  ["histories"], "all sequences of additions over sets of wheels",
  "No test covers the incremental command.",
  [V+"commands/add_wheel_to_index_json.py", V+"variants_json.py"], [("merge into loaded index", V+"commands/add_wheel_to_index_json.py")], (), ["CLI add-wheel-to-index-json (module entry point)"])
# ---------------------------------------------------------------- plugins
p("C22", "Exactly the applicable provider plugins are queried",
  "Resolution loads and queries the plugin of a declared provider if and only if it is an install-time provider, is not optional or its namespace was enabled by the caller, and its enable-if marker (if any) holds for the running environment; providers recorded ahead of time are answered from the recorded properties without running any plugin, and validation instead also queries ahead-of-time and optional plugins but only for the namespaces the variant uses. A provider that is not applicable contributes nothing.",
  ["configurations", "inputs"], "all provider declarations, markers and optional-provider selections",
  "Tests cover single flags, not their combinations nor which plugin code actually ran.",
  [V+"plugins/loader.py", V+"api.py"], [("_plugin_enabled / _use_static_properties_for_provider", V+"plugins/loader.py")], (), ["get_variants_by_priority", "validate_variant", "PluginLoader"])
p("C23", "Plugin answers are reused only for the same query to the same interpreter",
  "Within a process, a plugin query that was answered successfully is not executed again and later identical queries get the same answer; the answer of one Python interpreter, set of plugins, kind of query or required strictness is never used for another. A failed query is not remembered.",
  ["histories", "fault_sequences"], "all sequences of loads and queries over several interpreters, plugin sets, queries and transient failures",
  "Tests clear the cache around every test and use a single interpreter.",
  [V+"plugins/loader.py"], [("_call_subprocess cache key", V+"plugins/loader.py")], [("VARIANT_PROVIDER_CACHE_TABLE", "answers so far", V+"plugins/loader.py")], ["PluginLoader", "number of plugin executions"])
p("C24", "Plugin failures surface as errors and leave the loader usable",
  "If a plugin cannot be imported, lacks required attributes, raises, exits, prints garbage, returns values of the wrong type or invalid configurations, the query raises an error and returns nothing, never a partial or default answer; two plugins claiming one namespace are refused. A loader is usable only between entering and leaving its context, cannot be entered twice, and can be entered again after leaving or after a failed entry.",
  ["fault_sequences", "histories"], "all failing plugins at any position among good ones, all enter/query/leave sequences",
  "Tests cover each failure in isolation with a single plugin and do not use the loader afterwards.",
  [V+"plugins/loader.py", V+"plugins/_subprocess.py"], [("subprocess return code and output parsing", V+"plugins/loader.py"), ("load_plugins/process_configs", V+"plugins/_subprocess.py")], [("_namespace_map", "loaded plugins or None", V+"plugins/loader.py")], ["PluginLoader", "ListPluginLoader", "EntryPointPluginLoader"])
p("C25", "Provider answers are reported faithfully, in order, by API and CLI",
  "For every loaded provider, the reported configurations carry exactly the feature names, values and multi-value flags the plugin returned, in its order, under the plugin's namespace; flattening them yields every namespace :: feature :: value once in that order. Recorded ahead-of-time properties are reported the same way, a provider without supported configurations is left out, and the plugins and analyze-platform commands print the same information, filtered as requested.",
  ["inputs", "configurations"], "all sets of plugins and configurations",
  "Tests use three fixed mock plugins.",
  [V+"plugins/loader.py", V+"models/provider.py", V+"commands/plugins/get_configs.py", V+"commands/analyze_platform.py"], [("_get_configs", V+"plugins/loader.py"), ("to_list_of_properties", V+"models/provider.py")], (), ["get_supported_configs", "get_all_configs", "CLI plugins, analyze-platform"])
p("C26", "Validation classifies every property as valid, invalid or unknown",
  "Validating a variant gives each of its properties exactly one verdict: valid if the provider of its namespace lists that value for that feature among all its valid configurations, invalid if a provider answers for the namespace but does not list it, unknown if none does; and it reports exactly the features used with several values although their provider permits one. make-variant refuses a variant with an invalid or unknown property or such a violation unless told to skip validation.",
  ["inputs", "configurations"], "all variants and provider configurations",
  "Tests check a fixed plugin with a few properties.",
  [V+"api.py", V+"commands/make_variant.py", V+"models/variant.py"], [("validate_variant", V+"api.py"), ("VariantValidationResult", V+"models/variant.py")], (), ["validate_variant", "VariantValidationResult.is_valid", "CLI make-variant"])
p("C27", "Recorded ahead-of-time properties equal what the provider answered",
  "Wheel metadata generated for a variant records, for each ahead-of-time provider the variant uses, exactly the features and values its plugin supports, in order, and makes its feature order complete; resolving that metadata later without the plugin offers and ranks variants exactly as querying the plugin would have. It is refused if the provider is not declared fixed, has a multi-value feature, or does not support a property of the variant.",
  ["inputs", "histories"], "all ahead-of-time providers, configurations, existing feature priorities and variants",
  "Tests compare one generated document with an expected one and never resolve with it.",
  [V+"api.py", V+"plugins/loader.py"], [("make_variant_dist_info", V+"api.py")], (), ["make_variant_dist_info", "get_variants_by_priority"])
# ---------------------------------------------------------------- configuration
p("C28", "The first existing configuration file, in fixed precedence, decides",
  "The configuration in force is that of the first existing file among the local directory, the virtual environment, the user's and the system-wide location, in this order and without mixing them, and the empty default if there is none; a file that is not valid (syntax, unknown keys, wrong types or malformed namespaces) is reported as an error instead of being ignored or replaced by another file. Changes to the files take effect at the next query.",
  ["configurations", "histories"], "all combinations and contents of files, and changes over time",
  "Tests mock single files.",
  [V+"configuration.py", V+"models/configuration.py"], [("get_config_file precedence loop", V+"configuration.py")], (), ["VariantConfiguration.get_config", "get_variants_by_priority", "CLI config"])
p("C29", "Showing the configuration prints an equivalent configuration file",
  "The configuration printed by 'config show' is a TOML document that, read back as a configuration file, gives the same configuration as the active (or selected) one, for any priorities; asking for a location without a file is an error. 'config list-paths' prints the four locations in precedence order.",
  ["inputs", "configurations"], "all configurations",
  "One sample output is compared.",
  [V+"commands/config/show.py", V+"commands/config/list_paths.py"], [("tomlkit document", V+"commands/config/show.py")], (), ["CLI config show", "CLI config list-paths"])
p("C30", "update-pyproject-toml edits only the requested provider entries",
  "Adding a namespace makes it the last ranked namespace if it was not ranked, sets its plugin-api to the installed entry point and fills in its requirements only if missing; deleting one removes it from the ranking, the providers and the static properties; deletions come before additions, and everything else in the file, comments included, stays as it was. A request that cannot be fulfilled changes nothing, and starting from a valid file with install-time providers every sequence of edits ends in a valid file.",
  ["histories", "inputs"], "all sequences of edits on all pyproject files and sets of installed plugins",
  "One linear scenario with mocked plugins is tested.",
  [V+"commands/update_pyproject_toml.py"], [("add/delete loops", V+"commands/update_pyproject_toml.py")], (), ["CLI update-pyproject-toml"])
p("C31", "analyze-wheel reports a wheel's variant iff its metadata matches its name",
  "For a variant wheel whose metadata is present, valid and filed under the label in the file name, analyze-wheel prints exactly the sorted properties of that variant; for a plain wheel it prints no variant; a wheel with missing, invalid or differently labelled metadata, or a file that is not a wheel, is an error.",
  ["inputs"], "all wheel files and names", "Two wheels are tested.",
  [V+"commands/analyze_wheel.py", V+"variant_dist_info.py"], [("VariantDistInfo expected label", V+"variant_dist_info.py")], (), ["CLI analyze-wheel"])
p("C32", "make-variant asks providers in a fresh environment with exactly what they need",
  "Unless told otherwise, make-variant validates a variant and records its ahead-of-time properties with the plugins of an environment made for that run by the chosen installer, into which exactly the requirements of the providers of the variant's namespaces were installed, and which is gone afterwards whatever happens; plugins of the calling Python are not asked then. Without isolation, without validation or for the null variant no environment is made. If the environment cannot be made or filled, or a namespace has no provider, nothing is written.",
  ["inputs", "histories"], "all projects, variants, failures of the installer and sequences of runs",
  "Isolation needs an installer and a network, so tests run with it switched off or mocked away.",
  [V+"commands/make_variant.py", V+"models/variant_info.py", V+"api.py"], [("env_factory / venv.install", V+"commands/make_variant.py"), ("get_provider_requires", V+"models/variant_info.py")], (), ["CLI make-variant"])
p("C33", "Objects and calls accept exactly values of the declared type and form",
  "A property, feature, description, feature configuration, provider configuration or variant configuration exists only with contents of its declared types and forms (well-formed names and values; at least one value, none twice; at least one feature, none twice): anything else raises a validation error. Once made it cannot be reassigned; two are equal exactly if their contents are, and order and keys follow the parts; a provider configuration lists its properties in priority order. Resolver functions refuse arguments that are not of the declared types with a validation error, wherever in a nested container the wrong value is. Lists, dictionaries and text may be of derived classes; other values have to be of exactly the declared class.",
  ["inputs"], "all values and nestings of the types the models and the resolver declare",
  "Tests hand over a few wrong values; the nesting, position and mixture of values are unbounded.",
  [V+"validators/base.py", V+"validators/combining.py", V+"models/provider.py", V+"models/configuration.py", V+"models/variant.py", V+"resolver/sorting.py", V+"resolver/filtering.py", V+"resolver/lib.py"],
  [("_validate_type", V+"validators/base.py"), ("validator of every field", V+"models/base.py")], (), ["variantlib.models", "variantlib.resolver.lib"])
p("C34", "Every command does what its options ask, however written, and nothing else",
  "A command line names a command and gives it options; an option may be written short or long, with its value apart or attached, in any order, and flags may be joined. The last value of a repeated option counts, all values of a list option do, and an option that is not given has its documented default. The command then does what that request asks for (with the wheel, index, project file, directory, property or configuration file named there, and no other file changed). An unknown command or option, a missing or superfluous value, a value outside the choices or ill-formed, a missing required option, or options excluding one another are refused with a nonzero exit status and nothing done; help and version are shown on request without doing anything. A command registered by another distribution is called once, with exactly the arguments that follow its name.",
  ["inputs", "histories"], "all command lines, and sequences of them in one directory",
  "Tests write each option in one way, and mostly one command per test.",
  [V+"commands/main.py", V+"commands/make_variant.py", V+"commands/unmake_variant.py", V+"commands/analyze_wheel.py", V+"commands/generate_index_json.py", V+"commands/add_wheel_to_index_json.py", V+"commands/update_pyproject_toml.py", V+"commands/get_variant_hash.py", V+"commands/plugins/get_configs.py", V+"commands/plugins/main.py", V+"commands/config/show.py", V+"commands/config/list_paths.py", V+"commands/config/main.py"],
  [("argument parsers", V+"commands/make_variant.py"), ("dispatch to registered commands", V+"commands/main.py")], (), ["CLI"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
