#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

RD = 'xylem/sources/rules_dict.py'
DB = 'xylem/sources/database.py'
SI = 'xylem/sources/impl.py'
RS = 'xylem/specs/plugins/rules.py'
CU = 'xylem/config_utils.py'
CF = 'xylem/config.py'
II = 'xylem/installers/impl.py'
IB = 'xylem/installers/installer_base.py'
PM = 'xylem/installers/package_manager_installer.py'
OI = 'xylem/os_support/impl.py'

p('C01', 'Looking a key up follows source, version and OS precedence',
  'For every key, operating system and version, the rule found for an installer is the one from the highest-priority (first listed) source that says anything about that installer there, and within one source an entry for the exact version beats the any-version entry, which beats the any-OS entry. '
  'A rule written for the default installer counts as a rule for the installer that the operating system declares as its default, and such a placeholder never appears in the result. '
  'Nothing recorded for another key, operating system or version ever contributes, and a key without applicable entries yields an empty result rather than an error.',
  ['inputs', 'configurations'], 'all expanded rules data in any number of prioritised sources, all keys, OS names/versions and default installers',
  'Unit tests look up a handful of fixed keys in one dictionary; the combination of sources x versions x placeholder is never sampled.',
  [RD, RS, DB], [('lookup_rules / merge_installer_dict', RD), ('RulesDatabase.lookup', DB)],
  [('rules data of each source', 'key -> OS -> version -> installer -> rule', DB)], ['lookup_rules()', 'RulesDatabase.lookup()'])

p('C02', 'Merging rule sets preserves what every lookup finds',
  'Merging a prioritised list of rule sets gives one rule set in which looking up any key on any supported operating system and version finds exactly what looking through the individual rule sets in order of priority finds. '
  'The merged set mentions only the supported operating systems (and any-OS entries), contains no default-installer placeholder, and the merged rule sets are not modified.',
  ['inputs'], 'all lists of valid expanded rule sets, all tables of default installers, all (key, OS, version) queries',
  'Existing tests compare a few literal merges; equality with layered lookup under every query is never checked.',
  [RD], [('merge_rules, merge_os_dict, merge_version_dict, remove_rule_for_all_*', RD)], [], ['merge_rules()'])

p('C03', 'Expansion turns every shorthand into the one canonical form',
  'Every documented shorthand of a rules file (string, list, null, per-version or per-installer mapping, any-OS mapping without version level, string or null packages/dependencies) expands to the documented canonical form. '
  'Expanding already expanded rules changes nothing, and an empty file expands to an empty rule set. '
  'Anything that is not a documented form at the level of rule set, key, OS, version or installer is rejected with a parsing error that names the offending key (a rule set that is not a mapping is rejected with a value error).',
  ['inputs'], 'all YAML values at every level of a rules file',
  'Tests expand four hand-written snippets.',
  [RS], [('expand_rules and expand_*_definition', RS)], [], ['expand_rules()'])

p('C04', 'Compact notation keeps the meaning of rules',
  'Writing a valid rule set in compact notation and expanding it again gives a rule set in which every lookup, for every key, OS, version and installer, finds the same rule as in the original. '
  'The same holds for the file that the rules-file maintenance command prints or writes back: it is valid YAML that loads to rules of the same meaning. '
  'Compacting is refused with an error, rather than dropping a rule, when both the placeholder and the named default installer have a rule for the same version.',
  ['inputs'], 'all valid expanded rule sets and tables of default installers; all (key, OS, version) queries',
  'One literal compaction is tested; equivalence under all lookups is not.',
  [RS, 'xylem/commands/_compact_rules_file.py', 'xylem/yaml_utils.py'], [('compact_rules and compact_*_dict', RS), ('dump_yaml', 'xylem/yaml_utils.py')], [], ['compact_rules()', 'xylem _compact_rules_file'])

p('C05', 'Only well-formed rules data is ever accepted',
  'Verification accepts exactly the well-formed expanded rule sets: keys, OS names, versions and installer names must be non-empty identifiers of letters, digits, underscore, dot, plus, dash (or the documented exceptions) and not reserved words used out of place, the placeholder for the default installer is rejected under any-OS entries and wherever it is disallowed, and packages and dependencies must be lists, the latter of valid keys. '
  'Everything else is rejected with a value error and nothing is changed. '
  'Data that fails verification is never used: neither rules freshly loaded from a source nor rules read back from the cache.',
  ['inputs'], 'all values at all levels of an expanded rules dictionary; both ways of bringing data into the database',
  'Tests verify one identifier function on a few strings; no test feeds malformed structures at each level or through the cache.',
  [RD, DB, RS], [('verify_rules_dict and verify_*', RD), ('RulesSource.load_from_source / load_from_cache', DB)], [], ['verify_rules_dict()', 'RulesDatabase.load_from_*()'])

p('C06', 'Listing keys and resolving all keys cover exactly the defined keys',
  'The database lists a key exactly when some source has an entry for it that applies to the current OS and version (an entry for that version, for any version of that OS, or for any OS), each key once. '
  'Resolving with the all-keys option handles the explicitly requested keys first, in the order given, followed by the remaining listed keys in sorted order, every key exactly once.',
  ['inputs', 'configurations'], 'all contents of any number of sources, all OS/version tuples, all lists of requested keys with repetitions',
  'No test exercises key listing.',
  [DB, RS, RD, 'xylem/resolve.py'], [('RulesDatabase.keys', DB), ('has_rule_for_os', RD), ('remove_duplicates', 'xylem/util.py')], [], ['RulesDatabase.keys()', 'resolve(all_keys=True)'])

p('C07', 'A failing source never affects the update of the others',
  'An update handles the sources in order; each source whose data loads and verifies gets that data cached, and a source that fails to load, verify or save keeps whatever it had cached before. '
  'With errors tolerated (as the update command does), a failure is reported and every other source is still updated. '
  'With errors raised, the failing source stops the update: earlier sources stay updated and later ones are untouched.',
  ['histories', 'fault_sequences'], 'all sequences of updates with any subset of sources failing in any phase, in both error modes',
  'No test runs an update with failing sources.',
  [DB, 'xylem/update.py'], [('RulesDatabase.update / load_from_source / save_to_cache', DB)],
  [('cache file of each source', 'last successfully loaded data', DB)], ['RulesDatabase.update()', 'update()'])

p('C08', 'The rules cache survives crashes and concurrent updates',
  'At every moment, whatever happens during an update (process killed between any two file-system operations, write errors, unserialisable data, several updates running at once), a reader of a source\'s cache sees either the complete old or a complete new version of that source\'s data, never a missing, empty, mixed or partial one. '
  'An update that is not itself disturbed succeeds whatever else is running or has died, the very first one included, and after any such event the data of the next undisturbed update is what is read afterwards.',
  ['crash_points', 'schedules', 'fault_sequences'], 'all crash points and I/O errors between file-system operations of an update, all interleavings of two updates and a reader',
  'Tests never kill an update, never inject I/O errors and never run two at once.',
  [DB], [('_write_cache / save_to_cache', DB)], [('cache directory', 'one pickle file per source', DB)], ['cache directory', 'RulesDatabase.load_from_cache()'])

p('C09', 'Cached rules come back unchanged, or not at all',
  'Saving a source to the cache and loading it again gives back exactly the data, arguments, origin and load time that were saved, and distinct sources never share a cache entry. '
  'A cache entry that is missing, unreadable, structurally incomplete, from another kind of source, or holding invalid rules is rejected with an error and leaves the data in memory as it was; with errors tolerated the other sources still load. '
  'Asking whether a cache entry exists or is outdated, and clearing it, always work: without an entry (or with one of another kind of source) the cache counts as outdated, and clearing removes only that source\'s entry.',
  ['inputs', 'histories'], 'all rules data and origins; all kinds of damaged cache entries; all sequences of load, save, clear and query operations on several sources',
  'No test touches the cache.',
  [DB], [('RulesSource.load_from_cache / save_to_cache / is_cache_* / clear_cache', DB)], [('in-memory data of a source', 'data, arguments, origin, load time', DB)], ['RulesDatabase', 'RulesSource'])

p('C10', 'Sources are read in a fixed priority order from the sources directory',
  'The sources of the database are the entries of the files in the sources directory, files in alphabetical order (by character codes) and entries in file order, considering only regular non-hidden files (or links to such) with the .yaml extension, read as UTF-8 whatever the locale is. '
  'Built-in defaults are used only if the sources directory does not exist. '
  'A source list entry that is not a mapping with exactly one text key, an unknown kind of source, invalid arguments of a source, or two sources with the same identity are rejected with an error, and a file that is not valid YAML is reported and contributes nothing.',
  ['inputs', 'configurations'], 'all contents of the sources directory (names, file types, YAML contents)',
  'No test reads a sources directory.',
  [SI, DB], [('load_sources_from_path, parse_source_descriptions, verify_source_description', SI), ('RulesDatabase.init_from_sources, verify_unique_ids', DB)], [], ['RulesDatabase.sources', 'verify_source_description()'])

p('C11', 'Dry runs have no effects',
  'Simulating an installation executes no command that installs, updates or fixes anything, including unsatisfied prerequisites, whatever the other options are; it announces exactly the commands that the real run would execute. '
  'A dry-run update loads and checks the sources but creates, changes or deletes no file in the cache, and reports the same failing sources as a real one.',
  ['inputs', 'configurations'], 'all key lists, rules, installer behaviours and option combinations; all cache states',
  'No test runs either command.',
  ['xylem/install.py', 'xylem/update.py', PM], [('install(simulate), install_resolutions', 'xylem/install.py'), ('update(dry_run)', 'xylem/update.py')], [], ['subprocess calls', 'cache directory'])

p('C12', 'Every requested key is resolved once, with the right installer',
  'Every requested key appears exactly once, in request order, either among the results or among the errors, and one failing key never affects another. '
  'A key is resolved with the installer it is explicitly configured to be installed from (the first one if it is configured for several, which the user is told), or fails if that installer is not loaded or has no rule for it; otherwise with the first core installer, in priority order, that has a rule, and only if there is none with an additional installer that has a rule; with no such installer it fails. '
  'A result carries that installer\'s name and exactly the packages of that installer\'s rule.',
  ['inputs', 'configurations'], 'all key lists, rules, install-from configurations (including conflicting ones) and core/additional installer lists',
  'No test calls resolution.',
  ['xylem/resolve.py'], [('resolve', 'xylem/resolve.py')], [], ['resolve()'])

p('C13', 'The configured installers are exactly the ones used',
  'The core installers are those named by the configuration, or if the configuration does not name any (an explicitly empty list counts as naming) those of the current OS, in the given order, with names that have no loaded plugin skipped. '
  'Additional installers are exactly the loaded installers that declare themselves additional for the current OS and version and are not core installers, unless additional installers are switched off. '
  'Every loaded installer gets its own configured options with defaults for the rest, also when the set-up is repeated, and finding an installer by name works for all loaded ones.',
  ['configurations', 'histories'], 'all configurations of core installers, additional installers, options and disabled plugins on all supported OS/versions; repeated set-up',
  'One test constructs a default context.',
  [II], [('InstallerContext.setup_installers / lookup_installer', II)], [('core_installers, additional_installers', 'installers in use', II)], ['InstallerContext'])

p('C14', 'Installation respects order and stops at the first failure',
  'Packages are installed in the order in which their keys were resolved, consecutive packages of the same installer together in one batch; after resolution all general prerequisites are checked before anything else, and prerequisites of the packages before the first command. '
  'Unless told to continue on errors, the first problem ends the run: after a resolution error nothing is checked or executed, after a failure to determine what is installed nothing is executed, and after a failed command, failed batch or failed success check no further command is executed. '
  'When told to continue, everything else is still attempted, including packages of which it could not be determined whether they are installed.',
  ['programs', 'fault_sequences'], 'all sequences of resolved keys over several installers with failures at any step, both error modes',
  'No test runs an installation.',
  ['xylem/install.py'], [('install, install_resolved, install_resolutions', 'xylem/install.py')], [], ['sequence of installer calls and executed commands'])

p('C15', 'Only what is missing gets installed',
  'Without the reinstall option, installation commands are composed for exactly those resolved packages that their installer reports as not installed, in order, and an installer with nothing missing runs no command. '
  'With the reinstall option all resolved packages are handed to their installers, marked as reinstall, without asking what is installed. '
  'The interactive flag reaches the installers unchanged.',
  ['inputs', 'histories'], 'all sets of resolved and already installed packages over several installers, with and without reinstall; repeated installs',
  'No test runs an installation.',
  ['xylem/install.py', IB], [('filter_uninstalled, install_resolutions', 'xylem/install.py')], [], ['arguments given to installers', 'executed commands'])

p('C16', 'No installation failure goes unreported',
  'Every failure during an installation is returned: keys that cannot be resolved, installers that cannot tell what is installed, commands that cannot be composed or exit with a non-zero status, and packages that are not (or cannot be) detected as installed afterwards; an empty report means that every command succeeded and every package was detected. '
  'Without failures nothing is reported, unexpected exceptions of an installer surface as internal errors that keep the original cause, and unmet prerequisites surface as prerequisite errors.',
  ['fault_sequences', 'inputs'], 'all combinations of failures of all steps, batches and packages, both error modes',
  'No test runs an installation.',
  ['xylem/install.py'], [('install, install_resolutions', 'xylem/install.py')], [], ['result of install()'])

p('C17', 'Root privileges are requested exactly when needed',
  'Every installation command is prefixed with sudo exactly once if the installer is configured to run as root and the process is not running as root, and is run exactly as composed otherwise; a command that already starts with sudo is never prefixed again. '
  'Apart from the prefix, the commands and their order are unchanged, and the built-in installers default to root exactly where the package manager needs it (apt, macports and pip do; homebrew and the fake installer do not).',
  ['inputs', 'configurations'], 'all commands, option values and effective users, for all built-in installers and derived ones',
  'No test looks at composed commands.',
  [IB], [('InstallerBase.get_install_commands, elevate_privileges', IB)], [], ['Installer.get_install_commands()'])

p('C18', 'Configuration layers override each other in the documented order',
  'The effective value of every configuration item is the one from the highest layer that sets it: command line, then user file, then system file, then default; with an explicit configuration directory only its file is read between command line and defaults, and without user configuration the user file is ignored. '
  'Explicit empty or false values count as set, null does not; merging dictionaries are combined key by key with the same priority, and grouped items are decided individually. '
  'Missing or empty files and unknown entries change nothing, and command line options mean the same before and after the command name.',
  ['configurations', 'inputs'], 'all combinations of values (unset, empty, false, ordinary) in all layers for all item types, grouped or not',
  'Configuration tests exist only for single value types; the cascade has no test.',
  [CU, CF, 'xylem/commands/main.py'], [('load_config, merge_configs, ConfigType.merge', CU), ('create_subparsers', 'xylem/commands/main.py')], [], ['load_config()', 'xylem --print-config'])

p('C19', 'Configuration values are strictly typed',
  'A configuration value from a file or from the command line is either converted to a value of the declared type (boolean, string, path, list or dictionary with declared element types, or anything) or rejected with a configuration error; no other kind of value ever gets into a configuration, at any nesting depth. '
  'Null means unset, paths are made absolute with the home directory expanded, and repeated or bracket-less list and dictionary arguments on the command line are concatenated or joined, rejecting repeated keys. '
  'A file that is not readable YAML holding a dictionary with text keys is rejected with a configuration error.',
  ['inputs'], 'all YAML values and command line strings for all nestings of the config types',
  'Tests sample single examples per type; combinations and malformed inputs are not covered.',
  [CU], [('ConfigType.from_yaml / from_command_line / verify and subclasses', CU), ('process_config_file_yaml', CU)], [], ['config types', 'config_from_parsed_yaml()'])

p('C20', 'Configurations are isolated from each other',
  'Building or merging configurations never modifies its inputs, and changing one configuration afterwards never changes the declared defaults or any configuration obtained before or later from defaults. '
  'Every resulting configuration has exactly the declared items and groups, reachable as entries and as attributes alike, and converting to and from plain dictionaries keeps all values.',
  ['histories', 'inputs'], 'all sequences of creating, merging, converting and mutating configurations',
  'No test mutates a configuration and looks at another one.',
  [CU, CF], [('config_from_defaults, merge_configs, copy_to_dict', CU), ('ensure_config', CF)], [], ['config dictionaries'])

p('C21', 'Sources and cache directories are derived consistently',
  'Unless set explicitly, sources and cache directories are those inside the explicit configuration directory if there is one, otherwise those in the user configuration directory if user sources are chosen, otherwise those below the prefix; an explicitly set one is used as it is (expanded) without influencing the other. '
  'Command line beats environment variable beats default for both prefix and configuration directory, and all derived directories are absolute.',
  ['configurations'], 'all combinations of explicit directories, configuration directory, prefix, environment variables and the user sources option',
  'No test covers directory derivation.',
  [CF, CU, SI], [('process_config', CF), ('handle_global_config_arguments', CU), ('SourcesContext.setup_paths', SI)], [], ['config.sources_dir / config.cache_dir'])

p('C22', 'The current OS is the most specific match, or the valid override',
  'Detection selects a matching OS that is not a parent of another matching OS, whatever the order of the plugins, with a warning exactly if there is no single most specific one; if nothing matches, asking for the current OS fails with an unsupported-OS error and can be retried. '
  'An override selects the named OS with the given version, or the detected one if none is given; an unknown name or version is rejected and leaves the current OS as it was. '
  'Once detected or overridden the OS stays until changed explicitly, and an overridden OS answers exactly as the OS it stands for except for its fixed version.',
  ['histories', 'configurations'], 'all sets and orders of OS plugins with any parent relation and match results; all sequences of detect, override and query operations',
  'Tests mock one detector at a time and check a single detection.',
  [OI], [('OSSupport.detect_os / override_os / current_os', OI), ('OSOverride', OI)], [('current OS', 'detected or overridden', OI)], ['OSSupport.current_os'])

p('C23', 'OS names, versions and their order are consistent',
  'For every built-in OS and version, the list of decreasingly specific name/version pairs starts with the OS itself, follows its list of names, and a version that is unknown to a parent is given as unknown for that parent and everything above it. '
  'The version order of every OS is a strict total order on its known versions matching their listed order, and comparing an unknown version is rejected. '
  'The table of default installers names the default installer of every loaded OS.',
  ['inputs'], 'all built-in OS plugins (and derived ones with arbitrary version mappings), all versions and pairs of versions',
  'Tests check a few literal tuples.',
  ['xylem/os_support/plugins.py', 'xylem/os_support/os_base.py', OI], [('get_all_tuples, version_less_fn', 'xylem/os_support/plugins.py'), ('version_order_from_list', 'xylem/os_support/os_base.py')], [], ['OS plugin objects'])

p('C24', 'Exactly the valid, enabled plugins are loaded, unique by name',
  'Loading plugins yields, in discovery order, one instance of each plugin whose definition is complete and of the right kind, whose plugin name is not disabled and whose object name is a valid identifier; of several with the same object name only the first loaded one is kept. '
  'Disabling goes by the name in the plugin definition, not by the object\'s name, and a disabled, invalid or duplicate plugin never prevents others from loading or reserves a name.',
  ['configurations', 'inputs'], 'all sequences of plugin definitions (valid, malformed, wrong class, bad or duplicate names) and sets of disabled names',
  'No test loads anything but the shipped plugins.',
  ['xylem/plugin_utils.py'], [('load_plugins, verify_plugin_definition', 'xylem/plugin_utils.py')], [], ['load_plugins()'])

p('C25', 'Downloads retry transient failures only, and a bounded number of times',
  'A download is attempted again only after a service-unavailable response or a timeout, at most the given number of times (none for negative numbers), waiting the given period before each retry and applying the given timeout to each attempt. '
  'The first successful attempt\'s content is returned, decoded with the announced character set (UTF-8 if none). '
  'Every other failure, and a transient one without retries left, ends immediately as a download failure that keeps its cause.',
  ['fault_sequences'], 'all sequences of outcomes of the attempts, all retry counts',
  'No test downloads anything.',
  ['xylem/load_url.py'], [('load_url', 'xylem/load_url.py')], [], ['load_url()'])

p('C26', 'Package manager prerequisites are checked, and fixed only on request',
  'If the package manager is missing, installing it is attempted only on request and at most once, and the check passes only if it is found afterwards; otherwise the check fails with a prerequisite error. '
  'An outdated package manager is updated only on request and at most once, and never makes the check fail, but the user is told if it is (still) outdated, and with the simulate request what would be done; whether it is outdated is looked at only if it is present, and installers that do not support checking, installing or updating are handled without crashing. '
  'With the simulate request nothing is installed or updated.',
  ['fault_sequences', 'configurations'], 'all combinations and sequences of check results, supported operations, their outcomes and request modes',
  'No test checks prerequisites.',
  [PM], [('check_package_manager_installed / check_package_manager_updated', PM)], [], ['check_general_prerequisites()'])

p('C27', 'Command line results and exit status tell the truth',
  'Resolving and installing exit with status 0 exactly if every key and package succeeded, and resolving still prints the results for the keys that could be resolved; any other command exits with status 0 exactly if it ran to completion. '
  'An invalid configuration value, a source list that is malformed, names an unknown kind of source or repeats a source, or an unsupported operating system or version ends any command that depends on it with a failure status and a message instead of a traceback, and a missing or unknown command or an unknown option is a usage error; a command that succeeds writes nothing where errors are written, except that an update tells which of its sources it could not read. '
  'The resolve command prints one line per resolved key in order, with the packages, and the installer\'s name exactly if it is not the default installer or was asked for; the lookup command prints, for every key, rules that are valid YAML meaning what the database found.',
  ['inputs', 'configurations'], 'all key lists and outcomes for all commands run as a process',
  'No test runs the command line tool.',
  ['xylem/commands/main.py', 'xylem/commands/resolve.py', 'xylem/commands/install.py', 'xylem/commands/lookup.py', 'xylem/commands/update.py', 'xylem/lookup.py'], [('main and the commands\' main functions', 'xylem/commands/main.py')], [], ['exit status and output of the xylem process'])

p('C28', 'An installer rule resolves to one item per package',
  'Resolving an installer rule yields one item per listed package, in order, carrying every other declared entry of the rule (with defaults) except the dependencies, which are reported separately and in order; a rule of the wrong structure is rejected as an invalid rule. '
  'The rule itself is never modified, and items do not depend on items of other rules. '
  'Items are equal exactly if their contents are equal, equal items have equal hashes, and an item prints as its package, or as the entries that its class declares, in that order and with lists taken apart.',
  ['inputs'], 'all installer rules (valid and malformed), installers with additional rule entries, pairs of items',
  'No test resolves rules or compares items.',
  [IB], [('InstallerBase.resolve / get_depends, Resolution', IB)], [], ['Installer.resolve()', 'Resolution'])

p('C29', 'Chained errors are shown completely, oldest cause first',
  'Formatting an error shows every error in its chain of direct causes exactly once, from the original cause to the final error, joined by the documented cause text, however long the chain is; with chaining switched off only the final error is shown. '
  'Tracebacks are included exactly when requested. '
  'Raising or creating a chained error yields the requested type and message and keeps the original error object as its direct cause.',
  ['inputs'], 'all chains of exceptions of any length and type, with all formatting options',
  'No test formats a chained error.',
  ['xylem/exception.py'], [('exc_to_str, chain_exception, raise_from', 'xylem/exception.py')], [], ['exc_to_str()', 'raise_from()'])

p('C30', 'Options of installers and OS plugins are set completely or not at all',
  'Setting options on an installer or OS plugin replaces all of its options: declared options get the given value or else their default, and undeclared ones are ignored with a warning that names them. '
  'Options of the wrong type are rejected with a configuration error that names the plugin and leaves the previous options in force. '
  'Options of one plugin object never influence another, options are the defaults until set, and options set through an overridden OS are those of the OS it stands for.',
  ['histories', 'inputs'], 'all sequences of setting valid and invalid options on several plugin objects',
  'No test sets options.',
  [IB, 'xylem/os_support/os_base.py', OI], [('InstallerBase.options', IB), ('OSBase.options', 'xylem/os_support/os_base.py'), ('OSOverride.options', OI)], [('options', 'current options of a plugin object', IB)], ['options property'])

p('C31', 'The OS override text is understood in all its forms',
  'An override text is split at the first ampersand into OS and feature list, and the OS part at the first colon into name and version, with surrounding white space removed from every part; without a colon the version is to be detected, and without an ampersand the configured features stay in force, while a given feature list, even an empty one, replaces them. '
  'The same text has the same effect from the command line, from a configuration file and from a configuration passed to the API.',
  ['inputs', 'configurations'], 'all override texts; all ways of supplying them, with and without separately configured features',
  'No test parses an override.',
  [CF], [('parse_os_override, process_config, ensure_config', CF)], [], ['parse_os_override()', 'config.os_override', 'config.os_options.features'])

p('C32', 'Configuration descriptions never contain conflicting items',
  'Adding an item is rejected with a description error if its name is already taken by an item or group, if its group name is already an item, or if its command line argument is already in use (apart from dashes, underscores and slashes), and a rejected addition leaves the description as it was. '
  'Otherwise the item is appended, found under its full name and, for grouped items, under its group, and exposed on the command line exactly if that was requested directly or by giving an argument name or metavar, with the given argument name or else the dashed item name; each argument sets its own item and no other.',
  ['histories'], 'all sequences of additions over overlapping names, groups and command line arguments',
  'No test builds a description.',
  [CU], [('ConfigDescription.add, ConfigItem', CU)], [('items, groups, command line arguments', 'the description', CU)], ['ConfigDescription'])

p('C33', 'Scoped helpers always restore the process state',
  'After leaving, normally or by an exception, a scope that changes the working directory, redirects the standard streams or creates a temporary directory, the process has the working directory and streams it had when the scope was entered, however such scopes are nested; the temporary directory is gone, and the exception is not swallowed. '
  'Inside the scope, the change is in effect and output written to the redirected streams is captured completely and separately.',
  ['programs'], 'all properly nested sequences of scopes with exceptions at any point',
  'No test uses the helpers.',
  ['xylem/util.py'], [('change_directory, redirected_stdio, temporary_directory', 'xylem/util.py')], [], ['working directory', 'sys.stdout / sys.stderr'])

OD = 'xylem/os_support/os_detect.py'
OP = 'xylem/os_support/plugins.py'
p('C34', 'A machine is recognised from its identification alone',
  'Each built-in OS detector, and each built-in OS plugin on top of it, recognises the machine as its OS exactly if the identification of the machine (its release files, what its identification programs print, what the platform says) is that of the OS, and reports the version and code name stated there; where the identification is missing, unreadable or incomplete, or the machine is a different OS, it says so (not detected, unsupported OS version) instead of reporting anything else. '
  'In a list of detectors the first registered detector that matches names the OS; a detector added for a name takes the place of earlier ones of that name, changes only the list it was added to, and an override text replaces what would be detected.',
  ['inputs', 'histories'], 'all contents of the release files, outputs of the programs and platform information; all sequences of making lists, adding detectors and asking',
  'Tests of detection exist only for the machine they run on.',
  [OD, OP], [('is_os, get_version, get_codename of the detectors', OD), ('OsDetect.add_detector, get_detector, detect_os', OD), ('_OSDetecorBase', OP)], [('list of detectors', 'per OsDetect instance', OD)], ['OsDetect', 'built-in OS plugins'])

IPL = 'xylem/installers/plugins/'
p('C35', 'Built-in installers ask their package manager exactly what they should',
  'For every list of packages, each built-in installer composes exactly the install commands of its package manager, one for each package in order and no other. '
  'The pip and fake installers report as not installed exactly those of the given packages, in the given order, that their package manager does not have at that moment; the other installers never count as installed a package that their package manager lacks. '
  'A package manager counts as installed exactly if its program can be run (the fake one: if its directory exists); installing the package manager is refused as unsupported by all installers but the fake one, which then has it; and only the pip installer is offered as additional installer.',
  ['inputs', 'histories'], 'all lists of packages, all states of the package managers, all histories of installing, removing and asking',
  'Tests run no package manager.',
  [IPL + 'apt.py', IPL + 'homebrew.py', IPL + 'macports.py', IPL + 'pip.py', IPL + 'fake.py', 'xylem/util.py'],
  [('get_install_commands_no_root / filter_uninstalled / is_package_manager_installed', IPL), ('is_program_installed', 'xylem/util.py')],
  [('packages', 'what the package manager has', 'the package manager')], ['get_install_commands', 'filter_uninstalled', 'is_package_manager_installed', 'install_package_manager'])

YU = 'xylem/yaml_utils.py'
p('C36', 'YAML is written in one style and reads back as the same value',
  'Every value made of dictionaries, configuration dictionaries, lists, texts, numbers, dates, truth values and null that xylem writes as YAML reads back as the same value, whatever its texts look like, and writing does not change it. '
  'Documents have one style: keys in order, dictionaries in lines of their own, every list on one line, nothing for null in a dictionary, quotes only where the text would otherwise stand for something else. '
  'Reading understands every YAML style of a value as that value, with texts for all text, and answers every other text with a value or a YAML error, never another error; whatever the text, only plain data is created, and tags of other systems are YAML errors.',
  ['inputs'], 'all values that can be written; all styles of small values; all texts',
  'No test writes YAML.',
  [YU], [('dump_yaml, load_yaml', YU)], [], ['dump_yaml()', 'load_yaml()'])

LU = 'xylem/log_utils.py'
TC = 'xylem/terminal_color.py'
p('C37', 'Messages go where they should and look as they should',
  'Information goes to standard output, debug, verbose, warning and error messages go to standard error (or to the file that is given), each written completely in the color of its kind with colors reset at the end, and returned as written; debug messages show exactly if debugging was asked for by argument or environment, verbose ones exactly if asked for by argument, and asking for errors to end the process ends it with their text. '
  'With colors disabled, nothing xylem writes contains an escape sequence, and everything else is the same; annotated text shows sanitized text unchanged. '
  'A failing command prints its error, with a traceback exactly when debugging, on standard error and exits with 1; an uncaught exception is shown with its traceback, and the debugger opens exactly if it was asked for by argument or environment, on a terminal and outside an interactive interpreter.',
  ['histories', 'inputs', 'configurations'], 'all sequences of switches, arguments and messages; all annotated texts; all combinations of global arguments and environment',
  'No test looks at messages.',
  [LU, TC, 'xylem/arguments.py', 'xylem/commands/main.py', 'xylem/util.py'],
  [('debug, info, info_v, warning, error', LU), ('ansi, fmt, sanitize, enable_ANSI_colors, disable_ANSI_colors', TC), ('handle_global_arguments', 'xylem/arguments.py'), ('main, print_exc', 'xylem/commands/main.py')],
  [('verbose, debug, colors', 'switches of the process', LU)], ['sys.stdout / sys.stderr', 'return values', 'exit status'])

p('C38', 'Texts, bytes, lists and program output are handled faithfully',
  'Bytes become text as UTF-8 (or the given encoding), never with an error and replacing only what is no character, as little as possible; text becomes bytes as UTF-8; types, errors, lists of texts and other objects become their name, their message with its kind, their bracketed items, and their text. '
  'Running a program gives exactly its output, error output and exit status, however much it writes, and a program counts as installed exactly if it can be run. '
  'Indenting adds the indentation to every line (but the first if so asked) and nothing else; removing duplicates keeps the first of equal items in order and does not change its input.',
  ['inputs'], 'all byte sequences, texts, lists and programs',
  'Tests use a few fixed texts.',
  ['xylem/text_utils.py', 'xylem/util.py'], [('to_str, to_bytes', 'xylem/text_utils.py'), ('read_stdout, read_stdout_err, is_program_installed, indent, remove_duplicates', 'xylem/util.py')], [], ['to_str()', 'to_bytes()', 'read_stdout()', 'is_program_installed()', 'indent()', 'remove_duplicates()'])

p('C39', 'The commands of xylem are the usable entry points, and only those',
  'A command can be called, by the title of its definition, exactly if the first installed entry point of its name can be loaded and is a complete definition whose title is not taken and which can be set up, whatever other entry points there are; those that are of no use are reported and change nothing else, and help offers exactly the titles of the callable commands that are not private. '
  'A command line runs at most one command, once, with the arguments and configuration items given for it (items of other commands keep their defaults), and ends with what the command returns, 1 for its error or an interruption, and 2 with usage, running nothing, if there is no such command or an argument is unknown. '
  'Called through its own program, a command does the same.',
  ['inputs', 'configurations'], 'all sets of installed command entry points, usable or not, of equal or different names; all command lines',
  'Tests run only commands that xylem brings along.',
  ['xylem/commands/main.py', CU], [('list_commands, load_command_definition, create_subparsers, command_handle_args, main', 'xylem/commands/main.py'), ('config_from_args', CU)], [], ['exit status', 'help', 'standard error', 'arguments of the main function of the command'])

p('C40', 'API calls work with exactly the configuration and contexts they are given',
  'Every call of resolve, install, lookup and update takes its sources '
  'directory and cache, its OS and installers, and its install-from '
  'preferences from the database, contexts and configuration passed to it, '
  'in this order of precedence, and only what is not passed comes from the '
  'configuration (plain data, a parsed configuration, or, when none is '
  'given, the global one at the time of the call). Arguments of another type '
  'are a ValueError. Rules that are found are those of the last update into '
  'that cache directory (or those a given database has loaded), whatever the '
  'source files say now, and a cache that is incomplete is an error; only '
  'update, not as a dry run, changes caches, and only install, not '
  'simulated, runs package managers. No call changes the configurations, '
  'contexts or databases passed to it, nor the global configuration.',
  ['inputs', 'histories', 'configurations'], 'all combinations of passed and omitted configurations, contexts and databases; all histories of calls, edits and changes of the global configuration',
  'A test calls a function once, with contexts of its own and fresh global state.',
  ['xylem/resolve.py', 'xylem/install.py', 'xylem/lookup.py', 'xylem/update.py', 'xylem/config.py', 'xylem/installers/impl.py', 'xylem/sources/impl.py'],
  [('resolve', 'xylem/resolve.py'), ('install', 'xylem/install.py'), ('lookup', 'xylem/lookup.py'), ('update', 'xylem/update.py'), ('ensure_config, get_config, set_config', 'xylem/config.py'), ('ensure_installer_context', 'xylem/installers/impl.py'), ('SourcesContext, ensure_sources_context', 'xylem/sources/impl.py')],
  [('_config', 'the global configuration', 'xylem/config.py'), ('cache directory', 'rules of the last update', 'xylem/sources/database.py')], ['return values and exceptions of resolve, install, lookup, update', 'cache files', 'commands run'])

p('C41', 'Help texts keep their layout and describe every argument once',
  'In the help of every command and parser, each argument and each exposed '
  'configuration item is described exactly once, with its whole text. Three '
  'or more consecutive line breaks in a text separate paragraphs, shown '
  'with one empty line between them; two start a new line; all other white '
  'space only separates words, and lines are filled with as many words as '
  'fit the terminal, so that no word is lost, repeated, reordered or cut '
  'unless it alone is too long for a line. A paragraph starting with `R|` is '
  'shown as it is, only re-indented. A configuration item is followed, on a '
  'new line, by its name in the configuration file if that is not evident '
  'from the argument, its type, and its default if it has one, whatever '
  'characters these contain.',
  ['inputs', 'configurations'], 'all texts, terminal widths, arguments and configuration items',
  'A test formats one text at one width; the rules concern all mixtures of words, breaks, indents and markers.',
  ['xylem/config_utils.py', 'xylem/commands/main.py'],
  [('ConfigHelpFormatter', 'xylem/config_utils.py'), ('ConfigItem.help_string, add_argument', 'xylem/config_utils.py'), ('create_command_parser', 'xylem/commands/main.py')],
  [('help text', 'words, breaks and raw paragraphs', 'xylem/config_utils.py')], ['output of --help'])
p('C42', 'Printing the configuration shows the one in force and does nothing else',
  'With --print-config, wherever it stands and whatever the command, xylem '
  'prints one YAML document which has for every configuration item the value '
  'that the same command line, environment and configuration files put in '
  'force for a run: the layers merged, the override of the OS taken apart '
  'into name and version, the features it names replacing configured ones, '
  'and the cache and sources directories worked out. It then ends with '
  'success; the command is not run and no file is changed. What would be '
  'rejected for a run is rejected when printing, without a document. A '
  'printed configuration without OS override that is used as configuration '
  'file puts the same configuration in force.',
  ['inputs', 'configurations'], 'all command lines, environments, configuration files and commands',
  'A test prints the default configuration; the merged result for arbitrary layers and its use by the command are never compared.',
  ['xylem/config.py', 'xylem/config_utils.py', 'xylem/commands/main.py', 'xylem/yaml_utils.py'],
  [('handle_config_arguments, process_config', 'xylem/config.py'), ('handle_global_config_arguments_post', 'xylem/config_utils.py'), ('dump_yaml', 'xylem/yaml_utils.py')],
  [('_config', 'the configuration in force', 'xylem/config.py')], ['output and exit status of xylem --print-config', 'get_config() in a command', 'files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
