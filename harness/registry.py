"""Which module and function decides which property."""
CHECKS = {
    'C01': ('rules', 'c01'),
    'C02': ('rules', 'c02'),
    'C03': ('forms', 'c03'),
    'C04': ('forms', 'c04'),
    'C05': ('forms', 'c05'),
    'C06': ('rules', 'c06'),
    'C07': ('database', 'c07'),
    'C08': ('cachefs', 'c08'),
    'C09': ('database', 'c09'),
    'C10': ('sources', 'c10'),
    'C11': ('install', 'c11'),
    'C12': ('resolving', 'c12'),
    'C13': ('resolving', 'c13'),
    'C14': ('install', 'c14'),
    'C15': ('install', 'c15'),
    'C16': ('install', 'c16'),
    'C17': ('install', 'c17'),
    'C18': ('config', 'c18'),
    'C19': ('config', 'c19'),
    'C20': ('config', 'c20'),
    'C21': ('config', 'c21'),
    'C24': ('loading', 'c24'),
    'C25': ('download', 'c25'),
    'C26': ('plugins', 'c26'),
    'C28': ('plugins', 'c28'),
    'C29': ('helpers', 'c29'),
    'C30': ('plugins', 'c30'),
    'C31': ('override', 'c31'),
    'C32': ('describe', 'c32'),
    'C22': ('oses', 'c22'),
    'C23': ('oses', 'c23'),
    'C27': ('cli', 'c27'),
    'C33': ('helpers', 'c33'),
    'C34': ('detect', 'c34'),
    'C35': ('managers', 'c35'),
    'C36': ('yamls', 'c36'),
    'C37': ('messages', 'c37'),
    'C38': ('texts', 'c38'),
    'C39': ('offers', 'c39'),
    'C40': ('calls', 'c40'),
    'C41': ('helptext', 'c41'),
    'C42': ('effective', 'c42'),
}

BIND = ('Model checked exhaustively within small constants; the code is bound '
        'by conformance: ')
NOTES = {
    'C01': ('TLA+ spec of layered lookup (Rules.tla), TLC; enumerated databases replayed and recorded lookups judged by TLC',
            BIND + 'every database of up to two rules over two sources is replayed through RulesDatabase.lookup/lookup_rules, and seeded larger ones are judged. Beyond these bounds it is a search.'),
    'C02': ('TLA+ spec of merging vs layered lookup (Rules.tla), TLC; enumerated and random merges judged by TLC',
            BIND + 'all pairs of rules over two sources, triples over three sources and random rule sets, each under all queries.'),
    'C03': ('TLA+ spec of expansion (RulesForm.tla), TLC; enumerated documents replayed and recorded expansions judged by TLC',
            BIND + 'all documents of a bounded grammar plus seeded random YAML values, including values that are not documented forms.'),
    'C04': ('TLA+ spec of the meaning of rules (Rules.tla, RulesForm.tla), TLC; recorded compactions judged by TLC',
            BIND + 'compactions of enumerated and random rules are expanded by the specification and compared under all lookups; also the output of the maintenance command.'),
    'C05': ('TLA+ spec of well-formedness (RulesForm.tla), TLC; enumerated documents replayed, recorded verifications and loads judged by TLC',
            BIND + 'enumerated documents, every identifier in every position, random defects at every level, and loading from sources and caches. Non-ASCII letters: a fixed sample.'),
    'C06': ('TLA+ spec of key listing (Rules.tla), TLC; enumerated databases replayed and recorded listings/resolve orders judged by TLC',
            BIND + 'all databases of up to two rules, larger random ones, and resolving all keys through the API.'),
    'C07': ('TLA+ spec of the sources database (Database.tla), TLC; recorded histories of real updates and loads validated by TLC',
            BIND + 'seeded random histories over several sources with injected load, verify and save failures are validated as behaviours of the specification.'),
    'C08': ('TLA+ spec of atomic cache replacement (AtomicCache.tla) and of the file-system protocol (CacheFS.tla), TLC; recorded crash/concurrency histories validated by TLC',
            BIND + 'the real update is killed or made to fail at every file-system call it makes, and two updates and a reader are interleaved at those calls; every recorded history is validated.'),
    'C09': ('TLA+ spec of the cache of a source (Database.tla), TLC; recorded histories with damaged entries validated by TLC',
            BIND + 'seeded random histories of save, load, damage, clear and outdated queries, plus distinctness of cache entries for a sample of sources.'),
    'C10': ('TLA+ spec of reading the sources directory (Sources.tla), TLC; enumerated directories replayed and recorded reads judged by TLC',
            BIND + 'enumerated small directories, seeded random larger ones including malformed entries.'),
    'C11': ('TLA+ spec of an installation run (Install.tla) and of dry-run updates (Database.tla), TLC; behaviours replayed and recorded simulations validated by TLC',
            BIND + 'simulated runs of enumerated and random installations (package managers missing or outdated included), paired with the real run, and random histories with dry-run updates.'),
    'C14': ('TLA+ spec of an installation run (Install.tla), TLC; enumerated behaviours replayed and recorded runs validated by TLC',
            BIND + 'a sample of the enumerated behaviours is replayed, plus random larger installations with failures anywhere; commands and package managers are recording stand-ins.'),
    'C15': ('TLA+ spec of an installation run (Install.tla), TLC; enumerated behaviours replayed and recorded runs validated by TLC',
            BIND + 'runs where installers report any part of the packages as missing, with and without reinstall, enumerated and random.'),
    'C16': ('TLA+ spec of an installation run (Install.tla), TLC; recorded runs with injected failures and their reports validated by TLC',
            BIND + 'failures injected at every kind of interaction, enumerated and random; every report must correspond to a failure and vice versa.'),
    'C17': ('TLA+ spec of privileged commands (Install.tla), TLC; recorded compositions and runs judged by TLC',
            BIND + 'all one- and two-word commands over a vocabulary, random command lists, the built-in installers, and installation runs with installers that need root.'),
    'C18': ('TLA+ spec of configuration layers (Config.tla), TLC; enumerated layers replayed and recorded loads judged by TLC',
            BIND + 'a sample (thorough: all) of the enumerated layers, seeded random descriptions and files, and the configuration of xylem itself through its command line parser.'),
    'C19': ('TLA+ spec of typed values (Config.tla), TLC; recorded conversions of dictionaries, files and arguments judged by TLC',
            BIND + 'every basic value and text for a set of types, random nested types and values, damaged files.'),
    'C20': ('TLA+ spec of configurations that exist side by side (ConfigHeap.tla), TLC; recorded histories validated by TLC',
            BIND + 'seeded random histories of creating, merging, copying and changing configurations, every one observed after every step.'),
    'C21': ('TLA+ spec of derived directories (Config.tla), TLC; recorded settings judged by TLC',
            BIND + 'all combinations of which settings are given, each with random paths.'),
    'C12': ('TLA+ spec of resolving keys (Resolve.tla), TLC; enumerated worlds replayed and recorded resolutions judged by TLC',
            BIND + 'a sample (thorough: all) of the enumerated worlds and seeded random ones, with lookups and rules that fail.'),
    'C13': ('TLA+ spec of setting up installers (Context.tla), TLC; enumerated configurations replayed and recorded histories validated by TLC',
            BIND + 'all enumerated configurations, random histories of repeated set-ups, and the built-in plugins.'),
    'C26': ('TLA+ spec of the prerequisite check (Prereq.tla), TLC with liveness; enumerated package managers replayed and recorded checks validated by TLC',
            BIND + 'every enumerated package manager is replayed directly, random ones during installations.'),
    'C28': ('TLA+ spec of resolving rules to items (RuleItems.tla), TLC; enumerated rules replayed and recorded resolutions and comparisons judged by TLC',
            BIND + 'a sample (thorough: all) of the enumerated rules, random rules for random descriptions, pairs of items.'),
    'C30': ('TLA+ spec of options of plugin objects (Options.tla), TLC; recorded histories validated by TLC',
            BIND + 'seeded random histories of setting, reading and changing options of several installers, OS objects and overrides, all observed after every step.'),
    'C29': ('TLA+ spec of chained errors and their texts (ErrorText.tla), TLC; enumerated ways to make errors replayed and recorded histories validated by TLC',
            BIND + 'a sample (thorough: all) of the enumerated programs, random histories of raising, chaining and formatting, chains of more than a thousand errors.'),
    'C33': ('TLA+ spec of nested scopes (Scopes.tla), TLC; enumerated programs replayed and recorded ones validated by TLC',
            BIND + 'a sample of the enumerated programs and longer random ones, the process observed after every step.'),
    'C25': ('TLA+ spec of one download (Download.tla), TLC with liveness; enumerated outcome sequences replayed against a scripted loopback server, recorded attempts validated by TLC',
            BIND + 'a sample (thorough: all) of the enumerated sequences of attempts with real HTTP responses, stalls and broken connections, every kind of outcome alone and after a retry, longer random sequences, URLs that lead nowhere.'),
    'C24': ('TLA+ spec of loading plugins (Plugins.tla), TLC; enumerated sequences of entry points replayed and recorded loads judged by TLC',
            BIND + 'a sample (thorough: all) of the enumerated sequences, random entry points with every kind of defect, and the groups of xylem itself with additional plugins, all as real entry points of installed distributions.'),
    'C31': ('TLA+ spec of the override text (Override.tla), TLC; enumerated and random texts parsed and supplied in every way, judged by TLC',
            BIND + 'all texts up to length four (thorough: six) over the separators, random ones, and a sample of them from the command line, files and the API, with and without configured features.'),
    'C32': ('TLA+ spec of descriptions (Description.tla), TLC; enumerated sequences of additions replayed and recorded ones validated by TLC',
            BIND + 'a sample (thorough: all) of the enumerated sequences and longer random ones; items, groups and the arguments a real parser accepts are observed after every addition.'),
    'C22': ('TLA+ state machine of detecting and overriding the OS (OsSupport.tla), TLC; enumerated forests of plugins replayed and recorded histories validated by TLC',
            BIND + 'a sample (thorough: up to 10000) of all forests, orders and match sets of three (four) plugins, and longer random histories of up to eight plugins on machines that change.'),
    'C23': ('TLA+ spec of OS names, parents and version order (OsNames.tla), TLC; answers of built-in, derived and stand-in plugins judged by TLC',
            BIND + 'every version and pair of versions of the built-in plugins, enumerated version maps and lists, random derived classes and lists of up to 100 versions.'),
    'C27': ('TLA+ state machine of the xylem process (CommandLine.tla), TLC; enumerated runs and random histories of real processes with stand-in package managers validated by TLC',
            BIND + 'a sample (thorough: 4000) of all runs over a small world with every key list, flag and fault, and random histories of up to nine runs with edited sources; a part as fresh processes, the rest as forked ones.'),
    'C34': ('TLA+ spec of machines, their identification and of lists of detectors (Detect.tla), TLC; enumerated machines and histories replayed, recorded answers judged and histories validated by TLC',
            BIND + 'samples (thorough: nearly all) of the enumerated machines with every detector and plugin, random machines per detector, random histories of several lists; release files, programs and the platform are stand-ins.'),
    'C35': ('TLA+ state machine of package managers and their installers (Managers.tla), TLC; enumerated histories replayed and recorded ones validated by TLC',
            BIND + 'samples (thorough: all) of the enumerated histories, random histories over all five installers; package managers are stand-in programs.'),
    'C36': ('TLA+ spec of YAML documents and their styles (Yaml.tla), TLC; enumerated values and documents written and read by the code, recorded documents judged by TLC',
            BIND + 'samples (thorough: most) of the enumerated values in 32 styles, random values with odd texts and keys, random and damaged documents.'),
    'C37': ('TLA+ state machine of message switches, streams and looks (Messages.tla), TLC; enumerated histories replayed, recorded ones and processes validated by TLC',
            BIND + 'samples (thorough: all) of the enumerated histories, random ones, every escape sequence, and processes with every combination of global arguments and environment, each with and without colors.'),
    'C38': ('TLA+ spec of UTF-8, texts of objects, indenting, duplicates and programs (Texts.tla), TLC; recorded calls judged by TLC',
            BIND + 'samples (thorough: all) of short byte sequences over the boundary bytes, random objects, texts, lists and scripts that write random bytes.'),
    'C39': ('TLA+ spec of command entry points and command lines (Commands.tla), TLC; enumerated sets of entry points and lines run in forked processes and judged by TLC',
            BIND + 'a sample (thorough: 300 sets) of the enumerated entry points with lines, random sets of up to five entry points, as real entry points of installed distributions; xylem-update against xylem update.'),
    'C40': ('TLA+ state machine of API calls, configurations, contexts, caches (Calls.tla), TLC; enumerated and random histories of real calls validated as traces by TLC',
            BIND + 'a sample of all histories of three steps over three configurations and random histories of up to 17 steps, with the real plugins, files, caches and stand-ins for the package managers.'),
    'C41': ('TLA+ spec of the layout of help texts (HelpText.tla), TLC; enumerated and random texts shown by parsers and installed commands, judged by TLC',
            BIND + 'samples (thorough: most) of all short texts, random texts as description, group description, epilog, argument help and configuration item, at several terminal widths.'),
    'C42': ('TLA+ state machine of a run that configures and prints or runs (Effective.tla), TLC; recorded pairs of processes with and without printing judged by TLC',
            BIND + 'seeded random layers, environments and command lines; each run once printing and once with a command that records the configuration in force, and again from the printed document.'),
}
NOT_APPLICABLE = {}


def level(pid):
    return 'model_checking'
