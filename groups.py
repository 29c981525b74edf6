"""Which harness decides which property."""
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]

GROUPS = {
    "machine": {
        "src": ["machine.cpp", "main_machine.cpp", "reqtree.cpp", "ty_bool.cpp", "ty_double.cpp", "ty_int.cpp", "ty_string.cpp", "ty_tracked.cpp", "ty_u16.cpp"],
        "slow": ["machine.cpp", "reqtree.cpp", "ty_int.cpp", "ty_bool.cpp", "ty_double.cpp", "ty_string.cpp", "ty_tracked.cpp", "ty_u16.cpp", "Vault.cpp", "pbt.cpp"],
    },
    "csv": {
        "src": ["csv.cpp", "io_types.cpp", "files.cpp"], "defs": ["-DMVAULT_VERIF"], "slow": ["io_types.cpp", "csv.cpp", "Vault.cpp", "pbt.cpp"],
    },
    "sched": {
        # instrumented as for ThreadSanitizer but linked with the runtime in sched_rt.cpp
        "src": ["sched.cpp"], "plain": ["sched_rt.cpp"], "san": ["-fsanitize=thread", "-fno-omit-frame-pointer"], "link_san": [], "engine_san": [],
        "defs": ["-D_GLIBCXX_EXTERN_TEMPLATE=0"], "slow": ["sched.cpp", "Vault.cpp", "pbt.cpp"],
    },
    "debug": {
        "run_as": "it's $a; \"name\"/debug build",
        "debuginfo": "-g0",
        # as users build it, no sanitizers; the debug build is -O0 so that no function of the library is inlined into its caller
        "src": ["debug.cpp"], "san": [], "lib": False, "slow": ["dbg_ops.cpp", "Vault.cpp", "pbt.cpp"],
        "variants": [(["-O1", "-DNDEBUG", "-DDBG_RUN=DbgReleaseRun"], ["dbg_ops.cpp"]), (["-O0", "-DDBG_RUN=DbgDebugRun", "-Dmvlt=mvlt_debug"], ["dbg_ops.cpp"])],
    },
    "cost": {"src": ["cost.cpp"], "san": ["-fsanitize-coverage=trace-pc-guard"], "link_san": [], "engine_san": [], "slow": ["cost.cpp", "Vault.cpp", "pbt.cpp"]},
    "values": {
        "src": ["values.cpp", "containers.cpp", "io_types.cpp", "locale.cpp"], "slow": ["io_types.cpp", "values.cpp", "containers.cpp", "Vault.cpp", "pbt.cpp"],
    },
}

MACHINE = "random histories of vault, record-reference and record-set operations run against an executable model, state compared after every operation"
MASM = ["single-threaded histories; up to 3 vaults, 4 sets and 5 references; key types int, string, double, bool, unsigned short, a custom type and int64"]

PROPS = {}
for n in list(range(1, 20)) + [33, 38]:
    PROPS["P%02d" % n] = {"group": "machine", "how": MACHINE, "assumptions": MASM}

TXT = ["single-threaded; column types are the eight integer types, float, double, bool, string, a custom type with text conversions and one without"]
PROPS["P20"] = {"group": "csv", "how": "random tables with random key names, values, separators and options are saved, the file is checked by a reference CSV reader and loaded into an empty vault", "assumptions": TXT + ["the separator is one character other than quote, CR and LF", "values are text the key's type can read back"],
    "technique": "property-based round-trip testing against a reference CSV reader, with shrinking, under ASan+UBSan"}
PROPS["P21"] = {"group": "csv", "how": "random records are encoded as CSV in a random legal style (quoting, CRLF/LF) and read back; arbitrary bytes are walked byte by byte", "assumptions": ["the block path is exercised with small block sizes through the MVAULT_VERIF define; P34 does it with the real sizes"],
    "technique": "property-based round-trip testing and random byte fuzzing of the CSV reader, with shrinking, under ASan+UBSan"}
PROPS["P22"] = {"group": "csv", "how": "random files with valid, malformed, short, long, blank and clashing rows are loaded and compared with a model of the loading rules", "assumptions": TXT,
    "technique": "model-based property testing of CSV loading, with shrinking, under ASan+UBSan"}

VAL = ["single-threaded"]
def values(pid, how, assumptions, technique, **kw):
    PROPS[pid] = dict({"group": "values", "how": how, "assumptions": VAL + assumptions, "technique": technique + ", with shrinking, under ASan+UBSan"}, **kw)

values("P23", "random values are converted to text and random near-numbers, values' texts and other texts are read back, each compared with an independent conversion, also inside a vault", ["the C locale"],
       "differential property-based testing against independent conversions")
values("P24", "random tables are written as JSON in every layout; the result is read by a strict JSON parser and compared with the table", ["text is compared byte by byte; that it is UTF-8 is left to the caller"],
       "property-based round-trip testing with an independent strict JSON parser")
values("P25", "random histories over three savers compared with a model, with objects that notice wrong life times", ["delete functions are asserted for ResetData only, the documentation contradicts itself for the destructor"],
       "stateful model-based property testing")
values("P26", "random histories over each of the four containers compared with a std::multimap of expected elements", ["which of several elements with one key is changed is left open"],
       "stateful model-based property testing")
values("P27", "random histories over Map and UnorderedMap, multi or not, compared with std::multimap", [], "stateful model-based property testing")
values("P30", "random tables, sets and lists of references are printed and the text compared with the expected table", ["the primary key exists; records with equal primary values in any order"],
       "property-based testing against a reference renderer")
values("P31", "random mixes of identifier functions, also from threads and forked processes", ["uniqueness is checked within a case"], "property-based testing of format and uniqueness")
values("P39", "the same texts are written, printed, saved, parsed and loaded in the classic locale and in a generated one (C locales compiled for the check; C++ locales with odd numpunct and ctype facets) and compared",
       ["the locale does not change during a call; streams the user hands over keep the locale the user gave them"], "metamorphic property-based testing over locales", locales=True)
values("P34", "files just below, at and above the real 10 MiB limit, some 2560 block boundaries each, with random quoting, compared record by record with their generator", ["files up to 11 MB"],
       "property-based round-trip testing with generated big files", budget=300)
values("P35", "saves are cut off after a random number of bytes or sent to a full device, missing files and directories are opened", ["faults at the file system interface: size limit, full device, directory, missing file"],
       "property-based fault injection")

SCHED = "property-based testing of generated multi-threaded programs under generated schedules (real threads, one running at a time, every memory access a switch point), with shrinking"
PROPS["P28"] = {"group": "sched", "how": "random programs of nested read and write locks run by 2 to 4 threads under random schedules with spurious wake-ups", "technique": SCHED,
    "assumptions": ["programs that nest locks in a fixed order, so they cannot deadlock by themselves", "sequentially consistent memory; weaker orders are covered by the race check only"]}
PROPS["P29"] = {"group": "sched", "how": "random programs of 2 or 3 threads on one vault run under random schedules; results and final state are compared with sequential executions", "technique": SCHED + ", results checked for linearizability",
    "assumptions": ["each thread has its own references and sets, a shared set is only read; the vault is not destroyed, moved or dropped meanwhile", "sequentially consistent memory; weaker orders are covered by the race check only"]}

PROPS["P36"] = {"group": "debug", "how": "random histories, many with wrong types, run by the library built for release and for debugging in one program; results, state and output are compared and every report checked",
    "technique": "differential property-based testing of two builds, with shrinking",
    "assumptions": ["gcc-compatible debug information and addr2line, as installed", "the place of a call made inside a callback of the library is not checked"]}

PROPS["P32"] = {"special": "custom_types", "how": "random user-defined types with no more than the documented operations; a program using every template of the interface with the type is generated, compiled and run for random histories against a model",
    "technique": "property-based testing with generated types and programs, with shrinking of the type, under ASan+UBSan",
    "assumptions": ["the type is default constructible and copyable, as in the documentation's example", "C++11 to C++17, gcc and clang"]}
PROPS["P37"] = {"group": "cost", "how": "vaults of 8 to 16383 records with unique, mostly distinct, grouped and three-valued columns are searched, changed and erased from; the hashes and comparisons of key values each operation makes, and the control-flow edges it takes, are counted and compared with bounds that grow with the logarithm of the table and the number of results",
    "assumptions": ["single-threaded", "the work is counted in calls of the key type's own hash, == and < and in taken control-flow edges of the compiled library; the bounds leave a factor of two to five over the present code", "the hash function spreads the values"],
    "technique": "property-based testing of operation cost, counted by instrumented key types and edge coverage, against a logarithmic bound, with shrinking"}
PROPS["P38"]["how"] = "random histories on one vault, after which references, sets, records and keys are removed in a random order; the same history is run five times on the same vault and the heap compared after each"
PROPS["P38"]["technique"] = "stateful property-based testing with a heap balance per round, with shrinking, under ASan+UBSan"
PROPS["P40"] = {"special": "whole_life", "how": "programs whose static, thread_local, function-static, dynamic and local vaults, sets and references of two files run generated operations on each other before main, in it, in threads, in exit handlers and in destructors are run in four link orders, for release and for debugging, and compared with a model",
    "technique": "stateful model-based property-based testing of whole program lives, with shrinking of the history, under ASan+UBSan",
    "assumptions": ["a vault is not used by an object that outlives it, as in any C++ program; threads are joined before the next operation", "one shared library or a static link, not loaded and unloaded at run time"]}
PROPS["P41"] = {"group": "csv", "how": "random histories of saving, loading, parsing and reading, some failing, nested in handlers or cut off by a size limit, in a directory of their own; after each the directory's files, their content and attributes and the open file descriptors are compared with a model",
    "assumptions": ["a save that fails may leave a part of its own file", "a reader in use holds at most one file open"],
    "technique": "stateful model-based property-based testing with fault injection, with shrinking, under ASan+UBSan"}
