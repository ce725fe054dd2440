T = "buildcc/lib/target/"
TGT_FILES = [T + "src/target/tasks.cpp", T + "src/target/build.cpp",
             T + "src/target/friend/compile_pch.cpp", T + "src/target/friend/compile_object.cpp",
             T + "src/target/friend/link_target.cpp", "buildcc/schema/src/target_serialization.cpp",
             "buildcc/schema/include/schema/path.h"]
REC = [("build record", "what the last build of a target saw: files with hashes, flags, directories, "
        "which steps completed", "<build>/<toolchain>/<target>/<target>.bin")]

GEN_FILES = [T + "src/custom_generator/custom_generator.cpp", T + "src/generator/file_generator.cpp",
             T + "src/generator/template_generator.cpp", T + "include/target/custom_generator/custom_blob_handler.h",
             "buildcc/schema/src/custom_generator_serialization.cpp"]
GREC = [("generator record", "inputs with hashes, outputs and user data of every id that completed",
         "<build>/<generator>/<generator>.json")]


def define(P):
    P("B01", "A successful build never leaves a stale output",
      "After any history of project edits and builds, a build that reports success leaves every precompiled "
      "header, object and linked output equal to what building the project from scratch would give. This holds "
      "for edits of sources, headers, precompiled headers and declared dependencies (also to older timestamps), "
      "for adding, removing or reordering sources, and for changes of flags, include and library directories and "
      "libraries, transitively through dependent targets.",
      ["histories", "inputs", "configurations"],
      "every project of up to 3 dependent targets, every sequence of edits and builds, every worker count",
      "the unit tests replay a handful of fixed two-build scenarios with a mocked executor and never look at what "
      "the outputs contain",
      TGT_FILES,
      [("change detection per stage", T + "src/target/friend/*.cpp"), ("file hash", "buildcc/schema/include/schema/path.h"),
       ("record update", "buildcc/schema/src/target_serialization.cpp")],
      ["contents of every output file after a build", "commands handed to the process library"],
      "stateful property-based testing: generated edit/build histories against a from-scratch reference model",
      "exploration: random histories through the real Target code with a deterministic stand-in compiler whose "
      "outputs are functions of command line and inputs; assumes edits change the modification time", REC)
    P("B02", "A build redoes only the work whose inputs changed",
      "A build with nothing changed runs no command and does not touch its records. When only sources or link inputs "
      "changed, exactly the changed and added sources are compiled, the precompiled header is not rebuilt, and the "
      "target is linked exactly once if and only if something it links changed. No step ever runs twice in one build.",
      ["histories", "configurations"],
      "every project and every sequence of edits and successful builds",
      "tests check a few fixed recheck counters; over-rebuilding in an untested combination keeps all of them green",
      TGT_FILES,
      [("per-source selection", T + "src/target/friend/compile_object.cpp"),
       ("relink decision", T + "src/target/friend/link_target.cpp")],
      ["multiset of executed commands per build", "bytes of the build record"],
      "stateful property-based testing against a reference model of required work",
      "exploration; claims nothing about how much is redone when a target-wide compile input changes", REC)
    P("B03", "Failed build steps are reported, contained and redone",
      "If any command fails, an input is missing or the record cannot be written, the build reports failure, later "
      "stages of that target and everything depending on it do not run, and a failed step is run again by the next "
      "build until it succeeds. Compile steps that had completed are not redone, and once a build succeeds its "
      "outputs are as fresh as if nothing had ever failed.",
      ["fault_sequences", "histories", "schedules"],
      "every sequence of edits and builds with failing commands, missing files and unwritable records, any worker count",
      "tests inject one failure at a time with a mocked executor and cannot see a stale output after recovery",
      TGT_FILES,
      [("failure state", "buildcc/lib/env/src/task_state.cpp"), ("stage gating", T + "src/target/tasks.cpp"),
       ("partial record", "buildcc/schema/src/target_serialization.cpp")],
      ["reported build result", "commands run", "contents of outputs after recovery"],
      "stateful fault-injection property testing against a freshness model",
      "exploration over generated fault sequences; tools are assumed to report failure by exit status", REC)
    P("B04", "Killed builds and damaged records never cause stale outputs",
      "Wherever a build is killed (before, during or after any command) and however a build record is truncated or "
      "overwritten with other data, the next build neither crashes nor trusts leftovers. Once a later build reports "
      "success every output is as fresh as if built from scratch, including when the user edited or reverted the "
      "configuration in between.",
      ["crash_points", "histories"],
      "every kill point of every build in a history, and every truncation or replacement of a record",
      "no test kills a build or damages a record and then checks outputs",
      TGT_FILES + ["buildcc/schema/include/schema/interface/serialization_interface.h"],
      [("record load", "buildcc/schema/include/schema/interface/serialization_interface.h"),
       ("record written before each stage", T + "src/target/tasks.cpp")],
      ["process survival", "contents of outputs after the following build"],
      "crash-injection property testing: builds killed at generated command boundaries, records corrupted",
      "exploration; kill points are command boundaries and torn tool outputs; forged but valid records are out of scope",
      REC)
    P("B05", "Edits made while a build runs are not lost",
      "If an input file is edited while a build is running, before or after the step using it has read it, the next "
      "build brings every output up to date. No such edit is ever recorded as already built.",
      ["histories", "schedules", "inputs"],
      "every input file edited during every step of every build in a history",
      "tests never change a file during a build",
      TGT_FILES,
      [("hash taken before the step runs", T + "src/target/friend/*.cpp"),
       ("record stores the hash taken before", T + "src/target/tasks.cpp")],
      ["contents of outputs after the next build"],
      "stateful property-based testing with edits injected inside running commands",
      "exploration; an edit is atomic with respect to the reading command", REC)
    P("G01", "Generators run exactly the ids whose inputs, outputs or data changed",
      "After any history of edits and successful builds, every generated file equals what running its generator from "
      "scratch would produce, for custom, file and template generators. An id is run if and only if it is new or its "
      "inputs, outputs, user data, commands or substituted values changed since it last ran, at most once per build, "
      "and a build with nothing to do leaves the generator's record untouched.",
      ["histories", "inputs", "configurations"],
      "every set of custom, file and template generators with dependent ids and every sequence of edits and builds",
      "unit tests replay a few fixed rebuild scenarios per generator and do not compare generated contents with a "
      "from-scratch run",
      GEN_FILES,
      [("per-id change detection", T + "src/custom_generator/custom_generator.cpp"),
       ("user data comparison", T + "include/target/custom_generator/custom_blob_handler.h"),
       ("template patterns as user data", T + "src/generator/template_generator.cpp"),
       ("ordered commands", T + "src/generator/file_generator.cpp")],
      ["contents of every generated file", "callbacks and commands run per build", "bytes of the generator record"],
      "stateful property-based testing against a reference model of generators",
      "exploration; callbacks are deterministic functions of their inputs and data", GREC)
    P("G02", "Failed, killed or raced generator runs are never taken as complete",
      "When a callback or command fails, is killed, has an input edited under it, or a generator record is damaged or "
      "unwritable, the failure is reported and nothing depending on it runs. Ids that completed are not redone, failed "
      "ids are rerun, and the next successful build leaves every generated file equal to a from-scratch run.",
      ["fault_sequences", "crash_points", "histories"],
      "every sequence of edits and builds with failing, killed or raced callbacks and damaged records",
      "tests cover single failing callbacks and never kill a run, damage a record or edit an input mid-run",
      GEN_FILES + ["buildcc/schema/include/schema/interface/serialization_interface.h"],
      [("record of succeeded ids", T + "src/custom_generator/custom_generator.cpp"),
       ("record load", "buildcc/schema/include/schema/interface/serialization_interface.h")],
      ["reported result", "callbacks run", "contents of generated files after recovery"],
      "stateful fault and crash injection property testing against a freshness model",
      "exploration; kill points are callback boundaries and torn outputs", GREC)
    P("K01", "Commands contain exactly what the project declares, argument by argument",
      "Every compile, precompiled header and link command that a build runs consists of exactly the arguments its "
      "command pattern prescribes: the compiler for the file's language, toolchain flags before target flags of the "
      "right kind, include and library directories in the order added, every object, target libraries and then "
      "external libraries. Paths are normalised and stay one argument each when project, build, tool, include, library "
      "or source paths contain spaces.",
      ["inputs", "configurations"],
      "every declared target, toolchain configuration, custom command pattern and path with or without spaces",
      "tests compare a few fixed strings and never use spaces, custom patterns or mixed languages together",
      [T + "src/target/build.cpp", T + "src/target/target.cpp", T + "src/target/friend/compile_object.cpp",
       T + "src/target/friend/compile_pch.cpp", T + "src/target/friend/link_target.cpp",
       T + "include/target/common/util.h", T + "src/target_info/target_info.cpp",
       "buildcc/lib/toolchain/src/common/toolchain_config.cpp"],
      [("command construction", T + "src/target/friend/*.cpp"), ("default arguments", T + "src/target/build.cpp")],
      ["commands handed to the process library", "command getters of a target", "the generated precompiled header"],
      "property-based testing of generated targets against an independent model of command lines (shell-tokenised)",
      "exploration; paths contain no shell metacharacters other than spaces; flags are raw text")
    P("K02", "Patterns expand to exactly the values given, or are rejected",
      "Expanding a pattern in commands, generator inputs and outputs, chained patterns, file generator commands and "
      "template files replaces every {key} by its value verbatim, {{ and }} by single braces, and changes nothing else, "
      "whatever the values contain. An unknown key or an unbalanced brace is rejected and never produces output, a "
      "default value given twice keeps its first value, and arguments of one expansion are not visible in the next.",
      ["inputs"],
      "every pattern over every set of keys and values, including braces, quotes, newlines and non-ASCII text in values",
      "tests expand a few fixed patterns with plain values",
      ["buildcc/lib/env/src/command.cpp", T + "src/custom_generator/custom_generator.cpp",
       T + "src/generator/file_generator.cpp", T + "src/generator/template_generator.cpp"],
      [("expansion", "buildcc/lib/env/src/command.cpp"), ("chained patterns", T + "src/custom_generator/custom_generator.cpp")],
      ["expanded strings", "commands run", "generated files"],
      "property-based testing of generated patterns against a reference expander",
      "exploration; keys are distinct; format specifications inside braces are out of scope")
    P("K03", "No two build steps write the same file or outside the build directory",
      "Distinct sources of a target always compile to distinct objects, wherever they lie relative to the target root "
      "(including outside of it and below roots that are not normalised). Every object, record, precompiled header and "
      "linked output lies inside the build directory of its target and is shared with no other step of any target.",
      ["inputs", "configurations"],
      "every set of source paths, target roots and relative or absolute target environments",
      "tests use one out-of-root source; a collision needs two particular paths together",
      [T + "src/target/friend/compile_object.cpp", T + "src/target/friend/compile_pch.cpp",
       T + "src/target/friend/link_target.cpp", T + "include/target/target.h", T + "include/target/common/target_env.h"],
      [("object path construction", T + "src/target/friend/compile_object.cpp"),
       ("target build directory", T + "include/target/target.h")],
      ["output paths in commands", "path getters of a target"],
      "property-based testing: injectivity and containment over generated path sets",
      "exploration; targets have distinct names per toolchain; one listed finding (a folder literally named __)")
    P("S01", "Target descriptions hold exactly what was added, globbed, copied or inserted",
      "After any sequence of additions, globs, copies and inserts, every list of a target description holds exactly the "
      "entries given, resolved against the target root and normalised, in order, starting from the toolchain's flags. "
      "Copy replaces and Insert appends exactly the selected lists, by reference without altering the source and by move "
      "alike; globs take exactly the files with a valid extension, and files with an invalid one are rejected unchanged.",
      ["inputs", "histories"],
      "every sequence of description operations over several targets and header-only descriptions, every option subset",
      "tests check list sizes after copying all options at once, so a mixed-up pair of options goes unnoticed",
      [T + "src/api/sync_api.cpp", T + "src/api/lib_api.cpp", T + "include/target/api/source_api.h",
       T + "include/target/api/include_api.h", T + "include/target/api/pch_api.h", T + "include/target/api/deps_api.h",
       T + "include/target/api/lib_api.h", T + "src/target_info/target_info.cpp",
       "buildcc/lib/toolchain/include/toolchain/api/flag_api.h", "buildcc/lib/toolchain/src/common/toolchain_config.cpp"],
      [("copy and insert", T + "src/api/sync_api.cpp"), ("additions", T + "include/target/api/*.h")],
      ["getters of every list"],
      "stateful property-based testing against a list model",
      "exploration; the moved-from lists are not inspected after a move")
    ENV = "buildcc/lib/env/"
    P("E01", "Saved files hold exactly the bytes given, or failure is reported",
      "Saving reports success exactly when the file afterwards holds precisely the given bytes, whatever their size and "
      "content, also when an older longer file is replaced or the medium fills up part way. Loading gives back exactly "
      "the bytes of the file whatever the buffer held before, and unreadable or unwritable places are reported, never "
      "a crash.",
      ["inputs", "fault_sequences"],
      "every content (binary and text mode), every sequence of saves and loads, every point at which the medium is full",
      "tests save one short text and never run out of space",
      [ENV + "include/env/util.h"],
      [("file input and output", ENV + "include/env/util.h")],
      ["result of save and load", "bytes in the file"],
      "property-based testing of save/load histories with injected full media against a byte-map model",
      "exploration; full media are injected as file size limits and a full device")
    P("E02", "Paths and change detection are canonical and exact",
      "Every path is reduced to one normal form that does not depend on how it was written, is displayed as a single "
      "quoted word exactly when it contains a space, and lists of paths keep order, duplicates and hashes. Two states of "
      "a file get the same hash exactly when their modification times are equal, a missing file is never given a hash, "
      "and splitting and trimming text loses nothing but delimiters and outer white space.",
      ["inputs"],
      "every relative or absolute path with dots, repeated separators, spaces and non-ASCII names; every time difference",
      "tests normalise a few fixed paths and never compare close or far apart timestamps",
      ["buildcc/schema/include/schema/path.h", ENV + "include/env/util.h"],
      [("normal and display form", "buildcc/schema/include/schema/path.h"), ("text helpers", ENV + "include/env/util.h")],
      ["normalised strings", "lists and hashes", "equality of lists"],
      "property-based testing against reference implementations",
      "exploration; paths contain no double quotes or control characters")
    P("E03", "The object store owns one live object per identifier",
      "Objects put into the store are constructed in place from the given arguments, stay at the same address, and are "
      "found under exactly their identifier until the store is cleared, which destroys each of them exactly once. Asking "
      "for an unknown identifier or another type, or adding an identifier again, is rejected and leaves the store intact.",
      ["histories"],
      "every sequence of adding, fetching, querying and clearing objects of several types",
      "tests add one object of each kind and cannot see leaks, double destruction or moved objects",
      [ENV + "include/env/storage.h", ENV + "src/storage.cpp"],
      [("store", ENV + "include/env/storage.h")],
      ["addresses and values of fetched objects", "constructor and destructor counts"],
      "stateful property-based testing against a map model, under AddressSanitizer",
      "exploration")
    P("E04", "Running a command reports its true result and complete output",
      "A command succeeds exactly when the program exits with status zero: any other status, death by a signal, a missing "
      "program or a missing working directory is reported as failure. It runs in the given directory, and the requested "
      "standard output and standard error are captured completely, in order and separately, also when commands run "
      "concurrently or print a lot.",
      ["inputs", "schedules"],
      "every command of generated output, exit status, signal and working directory, serial or concurrent",
      "tests run one echo and one failing command with a few bytes of output",
      [ENV + "src/execute.cpp", ENV + "include/env/command.h"],
      [("process execution", ENV + "src/execute.cpp")],
      ["returned result", "captured bytes"],
      "property-based testing with real shell commands whose result and output are known by construction",
      "exploration; real processes below a scratch directory")
    P("Z01", "Build records survive storage unchanged, or are not loaded",
      "A target or generator record that was stored is loaded with every field exactly as stored, for any text and any "
      "amount of user data, and a target record of a partial build holds exactly the completed stages. A truncated, "
      "overwritten or foreign file is rejected without a crash, and two values of user data are considered equal exactly "
      "when they are equal.",
      ["inputs", "crash_points"],
      "every record content, every truncation, byte change or replacement of a stored record, every pair of user data",
      "tests store one fixed record and never a damaged one with realistic content",
      ["buildcc/schema/include/schema/interface/serialization_interface.h", "buildcc/schema/src/target_serialization.cpp",
       "buildcc/schema/src/custom_generator_serialization.cpp", "buildcc/schema/include/schema/target_schema.h",
       "buildcc/schema/include/schema/custom_generator_schema.h", "buildcc/schema/include/schema/path.h",
       T + "include/target/custom_generator/custom_blob_handler.h"],
      [("load and store", "buildcc/schema/include/schema/interface/serialization_interface.h"),
       ("record schema", "buildcc/schema/include/schema/*.h")],
      ["fields of the loaded record", "result of loading", "change verdict on user data"],
      "property-based round-trip testing and mutation fuzzing of stored records, under sanitizers",
      "exploration; text in records is valid UTF-8")
    TC = "buildcc/lib/toolchain/"
    P("C01", "Only complete, working toolchains are found and verified",
      "Searching for a toolchain lists, in search order, exactly the directories that hold all five of its tools under "
      "their exact names, skipping directories that are missing or cannot be read. Verification uses the first of them, "
      "fails when there is none, the version query fails or the required version or architecture differ, reports the "
      "complete version and architecture the compiler printed, and afterwards the toolchain runs exactly the tools of "
      "that directory.",
      ["inputs", "configurations"],
      "every directory tree of complete, incomplete and look-alike toolchains, search lists and compiler answers",
      "tests look into one directory of the host and stub out the compiler",
      [TC + "src/api/toolchain_find.cpp", TC + "src/api/toolchain_verify.cpp", "buildcc/toolchains/src/toolchain_infos.cpp",
       TC + "include/toolchain/common/toolchain_executables.h"],
      [("search", TC + "src/api/toolchain_find.cpp"), ("verification", TC + "src/api/toolchain_verify.cpp"),
       ("compiler query", "buildcc/toolchains/src/toolchain_infos.cpp")],
      ["directories found", "verified information", "tool paths used afterwards"],
      "property-based testing of generated directory trees against a reference search",
      "exploration; tools live in scratch directories and compiler answers are simulated")
    P("C02", "Each toolchain and target kind uses its own defaults unless overridden",
      "A toolchain or target created by its generic or its specialised kind behaves identically: the same tools, file "
      "extensions, target name and commands, which follow the conventions of that compiler family and target type. A "
      "configuration, tool set or command pattern supplied by the user is used unchanged, and unsupported kinds are "
      "rejected.",
      ["configurations", "inputs"],
      "every compiler family, target type and subset of overridden settings",
      "tests construct each kind once and hardly look at commands or overridden settings",
      ["buildcc/toolchains/src/toolchain_aggregate.cpp", "buildcc/toolchains/src/toolchain_gcc.cpp",
       "buildcc/toolchains/src/toolchain_msvc.cpp", "buildcc/toolchains/src/toolchain_infos.cpp",
       "buildcc/targets/include/targets/target_generic.h", "buildcc/targets/include/targets/target_gcc.h", "buildcc/targets/include/targets/target_msvc.h", TC + "src/common/toolchain_config.cpp"],
      [("kind selection", "buildcc/toolchains/src/toolchain_aggregate.cpp"),
       ("target defaults", "buildcc/targets/include/targets/*.h")],
      ["configuration getters", "commands run", "target paths"],
      "differential property-based testing (generic against specialised) plus a model of each family's command lines",
      "exploration; foreign compilers are simulated")
    P("C03", "Projects built with the real compiler behave as written after every edit",
      "A C/C++ project of static and dynamic libraries, precompiled headers, include directories, flags and an "
      "executable that depends on the libraries builds with the host's gcc, and the program prints exactly what the "
      "sources, headers and flags say. The same holds after every sequence of edits followed by an incremental build.",
      ["histories", "inputs", "configurations"],
      "every generated project and every sequence of edits, with the real compiler, archiver and linker",
      "the repository's examples are not run by its tests, which mock the compiler",
      TGT_FILES + ["buildcc/targets/include/targets/target_gcc.h", "buildcc/toolchains/src/toolchain_gcc.cpp"],
      [("gcc command patterns", "buildcc/targets/include/targets/target_gcc.h"), ("incremental build", T + "src/target/*.cpp")],
      ["standard output of the built program"],
      "end-to-end property-based testing: generated projects and edits, program output against a model",
      "exploration; linux with gcc only", REC)
    A = "buildcc/lib/args/"
    REG_FILES = [A + "include/args/register.h", A + "src/register.cpp", A + "src/tasks.cpp", A + "include/args/register/test_info.h",
                 "buildcc/lib/target/src/target/tasks.cpp", "buildcc/lib/target/src/custom_generator/custom_generator.cpp",
                 "buildcc/lib/env/src/task_state.cpp"]
    P("R01", "A build runs every registered step once, dependencies first",
      "Running a build executes every step of every registered target and generator exactly once, and no step of a "
      "builder starts before every step of each builder it depends on has ended, whatever the registration order, "
      "dependency graph, timing and number of cores. Within a target the precompiled header ends before any compile "
      "starts and all compiles end before linking. The build returns only when everything is complete, the callback "
      "given for the end of the build runs after it, and a second build with nothing changed runs nothing.",
      ["schedules", "configurations"],
      "every acyclic dependency graph of targets and generators, registration order, step duration and core count",
      "tests run one or two builders with a mocked executor and never observe the order of execution",
      REG_FILES, [("task graph", A + "src/tasks.cpp"), ("registration", A + "src/register.cpp"),
                  ("target tasks", "buildcc/lib/target/src/target/tasks.cpp")],
      ["log of step starts and ends recorded by stand-in tools"],
      "schedule-randomised property-based testing: generated graphs and step durations, order invariants over the event log",
      "exploration; schedules are sampled through step durations and core counts")
    P("R02", "Invalid registrations are rejected and valid ones accepted, in any order",
      "Registering a builder twice, a dependency twice, a dependency that would close a cycle of any length (itself "
      "included), a dependency or test of a builder that is not built, or a second test of a target ends with an error. "
      "Every other registration is accepted and leads to exactly the requested builds, order and tests, and deciding "
      "this takes no more than moderate time even for graphs with very many paths.",
      ["histories", "configurations"],
      "every sequence of build, dependency and test registrations, with open and closed gates",
      "tests try one instance of each mistake on graphs of two or three builders",
      REG_FILES, [("cycle detection", A + "src/tasks.cpp"), ("registration", A + "src/register.cpp")],
      ["verdict on each registration", "exit status", "steps and tests run afterwards"],
      "stateful property-based testing of registration sequences against a reference graph model",
      "exploration")
    P("R03", "A failing step fails the whole run and nothing that depends on it is run",
      "When any step of a registered builder fails (a command, a generator callback that reports failure or throws, a "
      "missing input or output), the build program ends with a failure status instead of hanging, crashing or claiming "
      "success, runs no step of any builder that depends on the failed one, directly or indirectly, no callback for the "
      "end of the build and no test. Once the cause is removed, the next run completes the build.",
      ["schedules", "fault_sequences"],
      "every dependency graph, set of failing steps, kind of failure, step duration and core count",
      "tests look at single builders failing on their own",
      REG_FILES, [("failure propagation", A + "src/tasks.cpp"), ("task state", "buildcc/lib/env/src/task_state.cpp")],
      ["exit status", "log of steps run", "state after a repaired run"],
      "fault-injection property-based testing over generated graphs and schedules with a reference model of what may run",
      "exploration; faults are injected through stand-in tools, callbacks and missing files", REC)
    P("R04", "Exactly the enabled builds and tests are run, as configured",
      "A builder, package, callback or test registered for a toolchain takes effect exactly when that toolchain's build "
      "switch (for tests also its test switch) is on. Each enabled test runs once, after all builds and the callback for "
      "the end of the build, with its command pattern filled in, its working directory and its output captured as "
      "configured, and a failing test makes the run fail after all tests have run.",
      ["configurations", "schedules"],
      "every combination of switches, builders, packages, callbacks, test commands, output modes and failing tests",
      "tests check single registrations with one combination of switches",
      REG_FILES, [("gates", A + "include/args/register.h"), ("test run", A + "src/tasks.cpp"), ("test command", A + "src/register.cpp")],
      ["steps, commands and callbacks executed", "captured output", "exit status"],
      "property-based testing of generated registration programs against a reference model",
      "exploration; tests are stand-in programs")
    P("P01", "Parallel builds have no data races and end like serial builds",
      "Building targets and generators in parallel, including runs in which steps fail and runs followed by tests, "
      "performs no unsynchronised access to shared data. A parallel build that succeeds leaves the same files and the "
      "same records as a serial build of the same project.",
      ["schedules"],
      "every set of builders, sources, dependencies and failures on two or more cores",
      "tests run with one source or a mocked executor and without a race detector",
      REG_FILES + ["buildcc/lib/env/src/storage.cpp", "buildcc/schema/src/target_serialization.cpp",
                   "buildcc/schema/src/custom_generator_serialization.cpp", "buildcc/lib/target/src/target/friend/compile_object.cpp"],
      [("shared records", "buildcc/schema/src/target_serialization.cpp"),
       ("shared generator state", "buildcc/lib/target/src/custom_generator/custom_generator.cpp")],
      ["reports of the race detector", "files and records after the build"],
      "schedule-randomised property-based testing under ThreadSanitizer, and a differential check against a serial run",
      "exploration; the scheduler library's fences are replaced by operations the race detector understands", REC)
    P("A01", "Settings come from the command line, configuration files and defaults as given",
      "Every setting of the project, of each toolchain and target and of user-added options has the value given on the "
      "command line, otherwise in the last configuration file that gives it, otherwise its default, with names of levels "
      "and compiler families accepted in any letter case. The project directories, log level and toolchains in effect "
      "afterwards are those values. A mistake (missing required setting, unknown or repeated option, unknown key or "
      "name, bad value, missing file) ends the program with a failure before anything is built.",
      ["inputs", "configurations"],
      "every distribution of settings over defaults, up to ten configuration files and the command line, and every kind of mistake",
      "tests parse a few fixed command lines and cannot observe rejected ones, which end the program",
      [A + "include/args/args.h", A + "src/args.cpp", A + "src/parse.cpp", A + "src/register.cpp"],
      [("option definitions", A + "src/args.cpp"), ("start of a build program", A + "src/register.cpp")],
      ["parsed settings", "project directories and log level", "exit status"],
      "property-based testing of generated command lines and configuration files against a precedence model",
      "exploration; values the option parser itself cannot express are not generated")
    P("J01", "The compilation database lists exactly the commands that were executed",
      "Whenever a listed target was built, the compilation database is valid JSON with exactly one entry per source of "
      "every listed target, holding the build directory, the path of the source and the command that was last executed "
      "for it, whatever characters they contain. When no listed target was built it is left untouched.",
      ["histories", "inputs"],
      "every set of targets, file names, flags and sequence of edits and builds",
      "the generator of the compilation database has no tests",
      ["buildcc/plugins/src/clang_compile_commands.cpp", "buildcc/plugins/include/plugins/clang_compile_commands.h",
       "buildcc/lib/target/src/target/friend/compile_object.cpp"],
      [("database", "buildcc/plugins/src/clang_compile_commands.cpp"),
       ("compile commands", "buildcc/lib/target/src/target/friend/compile_object.cpp")],
      ["compile_commands.json", "commands executed"],
      "stateful property-based testing: entries compared with the commands recorded from stand-in tools",
      "exploration")
    P("J02", "The program search returns exactly the matching files of the listed directories",
      "Searching the directories named by environment variables returns, in the order of variables and directories, "
      "exactly the files whose complete name matches the pattern, ignoring sub directories, directories that are missing "
      "or unreadable and variables that are not set. It succeeds exactly when something was found.",
      ["inputs", "configurations"],
      "every directory tree, list of search directories and pattern",
      "the only test of the search is disabled",
      ["buildcc/plugins/src/buildcc_find.cpp", "buildcc/plugins/include/plugins/buildcc_find.h", "buildcc/lib/env/include/env/util.h"],
      [("search", "buildcc/plugins/src/buildcc_find.cpp")],
      ["paths found", "result of the search"],
      "property-based testing of generated directory trees against a reference search",
      "exploration")
    XF = ["buildexe/buildexe.cpp", "buildexe/src/args_setup.cpp", "buildexe/src/build_env_setup.cpp",
          "buildexe/src/build_env_home.cpp", "buildexe/src/toolchain_setup.cpp"]
    P("X01", "The build program builds exactly the described target, incrementally",
      "In immediate mode, describing a target in configuration files and options runs exactly the commands that building "
      "the same target through the library runs, and a compilation database is left behind. A further run with nothing "
      "changed builds nothing, after an edit only what is affected is built, cleaning removes everything in the build "
      "directory, nothing else, and builds all again. A failing tool, unverifiable toolchain, missing or unsupported "
      "input or incomplete installation ends it with a failure status.",
      ["configurations", "histories", "fault_sequences"],
      "every target description, its split over files and options, edits and kinds of failure",
      "the build program has no tests",
      XF, [("options", "buildexe/src/args_setup.cpp"), ("target setup", "buildexe/src/build_env_setup.cpp")],
      ["commands executed", "files of the build directory", "exit status"],
      "differential property-based testing of the real program against the library, with stand-in tools",
      "exploration; tools are simulated")
    P("X02", "Script mode compiles the script with the library and runs it as configured",
      "In script mode every source of the library, of the script and of the requested library build files is compiled "
      "once with the include directories it needs, the script is linked with the library and then run once with exactly "
      "the given configuration files. A further run only runs the script again, a change of any library source or "
      "header reaches the script, and a failure of any step or of the script itself ends the program with a failure "
      "status without running anything that comes after it.",
      ["configurations", "histories", "fault_sequences"],
      "every script description, set of installed libraries, directory names with spaces, edits and failing steps",
      "the build program has no tests",
      XF + ["bootstrap/src/build_buildcc.cpp", "bootstrap/src/build_tpl.cpp"],
      [("script setup and run", "buildexe/src/build_env_setup.cpp"), ("library package", "bootstrap/src/build_buildcc.cpp")],
      ["commands executed and their order", "exit status"],
      "stateful property-based testing of the real program with stand-in tools and injected failures",
      "exploration; tools are simulated and third-party sources are stand-ins")
