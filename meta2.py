SCH = 'buildcc/schema/'
GEN = 'buildcc/lib/target/src/custom_generator/custom_generator.cpp'
GENH = 'buildcc/lib/target/include/target/custom_generator.h'
GEN_NOTE = ('Bounded: two ids (three in the thorough tier) with symbolic contents, each new, unchanged or changed in one tracked aspect; the code treats ids '
            'independently through maps and sets. Trusts the extractor and the library models listed in DESIGN.md.')

prop('C09', 'A build record survives saving and loading unchanged',
     'Whatever record of a target or generator build is saved, loading the saved file gives back exactly that record: every flag, directory, path, fingerprint, progress flag, generator id, output and user blob, whatever the field values are. Every file kind and state enumerator is read back as itself.',
     ['inputs', 'histories'], 'every value of every field of every record type, every enumerator',
     'Tests write and read a few fixed records; a field that is dropped, swapped or renamed on one side shows only when a later build depends on it.',
     [SCH + 'include/schema/target_schema.h', SCH + 'include/schema/path.h', SCH + 'include/schema/custom_generator_schema.h', SCH + 'src/target_serialization.cpp', SCH + 'src/custom_generator_serialization.cpp'],
     [('JSON conversions', SCH + 'include/schema/target_schema.h'), ('file serializers', SCH + 'src/target_serialization.cpp')],
     technique=INTERP + '; symbolic composition of writer and reader', note='All record types with JSON conversions. Trusts nlohmann::json (modelled: dump and parse are inverse on valid UTF-8).')
prop('C10', 'An unusable build record means a full rebuild, never a crash',
     'If a saved build record is missing, unreadable, not JSON, or JSON of another shape (a member missing or of another kind), loading it reports that there is no record and lets no exception out; the target is then built completely.',
     ['inputs', 'fault_sequences', 'histories'], 'every content of the record file, every member missing or of another kind',
     'Tests try one or two malformed files.',
     [SCH + 'src/target_serialization.cpp', SCH + 'src/custom_generator_serialization.cpp', SCH + 'include/schema/interface/serialization_interface.h'],
     [('parse without exceptions and conversion in try block', SCH + 'src/target_serialization.cpp')],
     technique=INTERP + '; exception flow of the record loaders', note='Trusts nlohmann::json as modelled (which calls throw for which JSON kinds).')
prop('C12', 'File fingerprints identify the file content that was used',
     'The fingerprint of a file depends on the current modification time of exactly that file without loss of precision; a file whose time cannot be read is never given a fingerprint. Two recorded file lists compare equal only if every path and every fingerprint agree. The files a command reads are fingerprinted before that command is started and not again afterwards, so a file changed during the build is rebuilt next time.',
     ['inputs', 'schedules', 'histories'], 'every path and time, every list, every build of every shape',
     'Tests sleep and touch files between builds; they cannot change a file at an arbitrary moment of a build or sample sub-second changes.',
     [SCH + 'include/schema/path.h', TGT + 'friend/compile_object.cpp', TGT + 'friend/compile_pch.cpp', TGT + 'friend/link_target.cpp'],
     [('ComputeHash', SCH + 'include/schema/path.h'), ('PreObjectCompile', TGT + 'friend/compile_object.cpp')],
     technique=INTERP + '; injectivity of the operations between the timestamp and the fingerprint; order of fingerprint and command events', note=SCN_NOTE)
prop('C13', 'A generator runs exactly the callbacks whose declared state changed',
     'Building a generator runs, exactly once, the callback of every id that is new, or whose inputs (paths or fingerprints), outputs or user blob differ from the last recorded run, and no callback of an unchanged id. Each callback gets the inputs, outputs and blob of its own id. Afterwards the record holds exactly the current ids with the fingerprints compared in this run; inputs are not fingerprinted again after their callback ran. If nothing changed, no callback runs and the record is not rewritten.',
     ['inputs', 'histories', 'configurations'], 'every recorded and current state of every id, ids added and removed, with and without blob handlers',
     'Tests use one or two ids and change one thing at a time; combinations of ids in different states are not sampled.',
     [GEN, GENH, SCH + 'include/schema/custom_generator_schema.h'], [('Comparator', GENH), ('task graph and store', GEN)],
     technique=INTERP, note=GEN_NOTE)
prop('C14', 'A failing generator callback fails the run and is retried',
     'If a callback returns false or throws, an input of an id cannot be fingerprinted, a blob is rejected, or the record cannot be saved, the run is reported as failed, no exception escapes into the task scheduler, the failing id is not recorded as done, and ids that did succeed stay recorded. No callback runs after an earlier step of the run has failed.',
     ['fault_sequences', 'histories', 'schedules'], 'every failing id and way of failing, from every recorded state',
     'Tests inject single failures and do not decode the record that is left behind.',
     [GEN, GENH], [('catch-all in the generator task, per-id success bookkeeping', GEN)],
     technique=INTERP + '; fault enumeration, exception flow, saved record decoded through the serialiser', note=GEN_NOTE)
ENV = 'buildcc/lib/env/'
GG = 'buildcc/lib/target/src/generator/'
prop('C15', 'File and template generators do every declared step and report every failure',
     'A file generator registers exactly the declared inputs and outputs (with patterns expanded) and on each run executes every declared command, in declaration order, stopping and failing at the first one that fails. A template generator reads each declared input, expands its pattern and writes the result to the declared output, and fails if the input cannot be read or the output cannot be written. A duplicate id or a missing callback is a fatal error at registration.',
     ['inputs', 'fault_sequences', 'configurations'], 'every list of inputs, outputs, commands and templates, every failing step',
     'Tests use fixed lists of one or two entries and do not fail each step.',
     [GG + 'file_generator.cpp', GG + 'template_generator.cpp', GEN], [('command loop', GG + 'file_generator.cpp'), ('template callback', GG + 'template_generator.cpp')],
     technique=INTERP, note='Any number of entries (witness element and the rest). Trusts the extractor and the library models listed in DESIGN.md; fmt pattern expansion is uninterpreted.')
prop('C16', 'Every command contains exactly the inputs it stands for',
     'In every precompile, compile and link command each placeholder of every shipped command pattern is supplied, with or without precompiled headers, and stands for exactly the matching user data: each flag list (of the language of the file) in order and in full, include and library directories with their own prefix, libraries and external libraries, the tool configured for that language, the file itself and the object of the same file.',
     ['inputs', 'configurations'], 'every flag list, directory list and library list, all languages, all shipped target configurations',
     'Tests use a mocked command executor and mostly do not look at the command text; shipped patterns for other toolchains are never expanded.',
     [TGT + 'build.cpp', TGT + 'friend/compile_object.cpp', TGT + 'friend/compile_pch.cpp', TGT + 'friend/link_target.cpp', 'buildcc/targets/include/targets/target_gcc.h', 'buildcc/targets/include/targets/target_msvc.h'],
     [('default arguments', TGT + 'build.cpp'), ('command construction', TGT + 'friend/compile_object.cpp')],
     technique=INTERP + '; provenance of every placeholder value, closure of all shipped patterns', note=SCN_NOTE)
prop('C17', 'Paths with spaces are quoted in commands and plain on the file system',
     'Every file or directory name that enters a command line goes through the quoting display form, so a path containing a space stays one argument; file names handed to the file system are never the quoted form.',
     ['inputs', 'configurations'], 'every path, every place of every command, every file access of a build',
     'Tests use paths without spaces.',
     ['buildcc/schema/include/schema/path.h', TGT + 'build.cpp', TGT + 'friend/compile_object.cpp', TGT + 'friend/compile_pch.cpp', TGT + 'friend/link_target.cpp'],
     [('ToPathDisplayString', 'buildcc/schema/include/schema/path.h')],
     technique=INTERP + '; taint of path values from source to command text and to file system calls', note=SCN_NOTE)
prop('C18', 'Command construction and execution report the truth',
     'Constructing a command makes every default and explicit argument available under its own name and fails fatally if the pattern cannot be expanded. Default arguments are never overwritten once set, and asking for an unknown one is fatal. Executing a command runs exactly that text in the given working directory, succeeds exactly when the exit status is 0, and gives stdout and stderr to the requested lists only.',
     ['inputs', 'fault_sequences'], 'every pattern, argument set, exit status and redirection choice',
     'Execution is replaced by a mock in the tests, so the real implementation is never run by most of them.',
     [ENV + 'src/command.cpp', ENV + 'src/execute.cpp'], [('Construct', ENV + 'src/command.cpp'), ('Execute', ENV + 'src/execute.cpp')],
     technique=INTERP, note='Trusts fmt::vformat and TinyProcessLib::Process (uninterpreted).')
APIP = 'buildcc/lib/target/include/target/api/'
prop('C19', 'What the user declares is exactly what the target holds',
     'Every declaring operation (add source, header, include directory, precompiled header, library, dependency, flag; single, absolute and glob forms) adds exactly the given item, after what was declared before, to exactly its own list and changes nothing else; relative paths are taken under the target root, absolute ones as given; a file of the wrong kind is a fatal error and is not added. Every getter gives back its own list. A new target starts with exactly the flags of its toolchain, list by list.',
     ['inputs', 'configurations', 'histories'], 'every item, every prior content of every list, every file kind, every operation',
     'Tests add one or two items with each call and compare one list; an item that also lands in another list, or is lost on an unusual path, is not seen.',
     [APIP + 'source_api.h', APIP + 'include_api.h', 'buildcc/lib/target/src/api/lib_api.cpp', APIP + 'pch_api.h', 'buildcc/lib/toolchain/include/toolchain/api/flag_api.h', APIP + 'deps_api.h', 'buildcc/lib/target/include/target/target_info.h'],
     [('declaration operations', APIP + 'source_api.h'), ('flag inheritance', 'buildcc/lib/target/include/target/target_info.h')],
     technique=INTERP + '; frame condition over all fields of the target record', note='All operations for TargetInfo (targets inherit them) and the flag operations of Toolchain. Trusts the library models in DESIGN.md.')
prop('C20', 'Copy and insert between targets take exactly the requested categories',
     'Copy with a set of categories makes exactly the lists of those categories equal to those of the source target and leaves every other list alone; Insert with a set of categories appends exactly the source lists of those categories behind what is there and leaves every other list alone. Neither changes the source target. An option that is not a category is a fatal error.',
     ['inputs', 'configurations'], 'every set of categories, every content of both targets',
     'Tests copy or insert a few fixed category sets with one item each.',
     ['buildcc/lib/target/src/api/sync_api.cpp', 'buildcc/lib/target/include/target/api/sync_api.h', 'buildcc/lib/target/include/target/common/target_config.h'],
     [('SpecificSyncOption switch', 'buildcc/lib/target/src/api/sync_api.cpp')],
     technique=INTERP + '; frame condition over all fields of the target record', note='Any list contents (uninterpreted); each category alone and in pairs with every other, and their order.')
prop('C21', 'Every file is classified and compiled by its own kind',
     'A file whose extension is configured for exactly one kind is classified as that kind and is compiled with the compiler and the flag list of that kind; any other file is classified as invalid and is never compiled. The extension sets of every shipped configuration are pairwise disjoint. The C, C++ and assembly state of a target is set exactly by compilable files of that kind.',
     ['inputs', 'configurations'], 'every file name, every extension of every shipped configuration',
     'Tests try a handful of extensions of one configuration.',
     ['buildcc/lib/target/src/common/target_config.cpp', 'buildcc/lib/target/src/common/target_state.cpp', TGT + 'target.cpp'],
     [('GetType', 'buildcc/lib/target/src/common/target_config.cpp'), ('SelectCompiler', TGT + 'target.cpp')],
     technique=INTERP + '; constant evaluation of the shipped extension sets', note='Trusts std::filesystem::path::extension (uninterpreted).')
REG = 'buildcc/lib/args/'
prop('C22', 'Registered dependencies form exactly the declared acyclic order',
     'Registering a build runs its setup callback once and adds exactly the task flow of that builder, once per id; registering the same id again is a fatal error. Dep(target, dependency) makes the target run after the dependency and adds nothing else. It is a fatal error, and changes nothing, if either was not registered, if the dependency was already declared, or if it would close a cycle of any length (including a builder depending on itself).',
     ['inputs', 'histories', 'schedules'], 'every sequence of registrations and dependencies, every graph shape',
     'Tests try one duplicate, one two-step and one three-step cycle; an edge that closes a longer cycle or a cycle behind a branch deadlocks the build silently.',
     [REG + 'src/register.cpp', REG + 'src/tasks.cpp', REG + 'include/args/register.h'], [('Dep, cycle detection', REG + 'src/register.cpp'), ('BuildTask', REG + 'src/tasks.cpp')],
     technique=INTERP + '; concrete enumeration of dependency graphs in the abstract task model',
     note='Bounded: all acyclic graphs over 3 builders in every insertion order and over 4 builders, times all pairs (registered or not); chains, layered and fan graphs over 6 (thorough: 12) builders times all pairs. Trusts the model of tf::Task neighbours.')
prop('C23', 'A run builds all, then calls back, then tests, and fails if anything failed',
     'Running builds every registered builder exactly once; only if all of them succeeded it calls the post build callback exactly once and then runs every registered test exactly once, also when another test fails. The run ends in a fatal error if a build, a test or a task started by the callback failed, and returns normally otherwise. No exception of a test escapes into the task scheduler. Using the registry before it is initialised is a fatal error.',
     ['inputs', 'fault_sequences', 'schedules'], 'every set of registered builds and tests, every combination of failing ones',
     'Tests run one or two targets against mocks and cannot enumerate which of several builds and tests fail.',
     [REG + 'src/register.cpp', REG + 'src/tasks.cpp', 'buildcc/lib/env/src/task_state.cpp'], [('Run', REG + 'src/register.cpp'), ('RunBuild, RunTest', REG + 'src/tasks.cpp')],
     technique=INTERP + '; fault enumeration', note='Two (thorough: three) builds, each with or without a test, every failing combination. Trusts the task model: everything started on an executor has ended after wait_for_all or Future::wait, and not necessarily before.')
prop('C24', 'Registration follows its condition and a test runs what was declared',
     'Func, Build, Dep and BuildPackage of a toolchain registration take effect exactly when its build flag is set, Test exactly when build and test are set, and the unconditional form exactly when its condition is true. Registering a test needs a registered target and is refused a second time. A test runs the registered command once, with the quoted file of its target as {executable}, the configured arguments and working directory; its output goes where the output kind says and nowhere else; a failing command fails the test.',
     ['inputs', 'configurations'], 'every condition value, every output kind, every command and configuration',
     'Tests use one condition per operation and mostly the default output kind.',
     [REG + 'src/register.cpp', REG + 'include/args/register.h', REG + 'include/args/register/test_info.h'], [('ToolchainInstance, CallbackInstance', REG + 'include/args/register.h'), ('TestRunner', REG + 'src/register.cpp')],
     technique=INTERP, note='Commands, arguments and directories are uninterpreted values; what the console shows of the output is not covered.')
prop('C25', 'Stored objects are found again with their own type, never lost or freed twice',
     'After any sequence of Add and Clear on a scoped storage or on the global one: an id is contained exactly when it was added since the last Clear; Valid<T> holds exactly when it was added as T; Ref and ConstRef give the very object that was added, built from the given arguments, and are fatal for an unknown id or another type; adding an id in use is fatal and leaves nothing behind that nobody owns; every object is destroyed exactly once, by Clear or by the destructor of the storage, and not before.',
     ['histories', 'inputs'], 'every sequence of operations, ids, types and arguments',
     'Tests run a few fixed sequences; leaks and double deletes show only under a sanitizer and only for the sampled sequence.',
     [ENV + 'include/env/storage.h', ENV + 'src/storage.cpp'], [('ScopedStorage, Storage', ENV + 'include/env/storage.h')],
     technique=INTERP + '; ownership (new/delete) tracking', note='All sequences of three (thorough: four) operations over two ids and two types, with every query after every step; the code treats ids uniformly through a map.')
prop('C26', 'Every command line option reaches the value it names',
     'Each option and flag is declared once, below its own command (the program, toolchain/<name>, target/<name>), writes exactly the member its name stands for and falls back to the same member of the initial value; named values select the enumerator of that name and all documented names exist; the required options are required. Parse parses exactly the given arguments and a parse error ends the program with the status of the parser. The getters return the parsed values; Reg::Init is fatal before the command line was parsed and afterwards the project directories are the current directory joined with --root_dir and --build_dir and the log level is --loglevel.',
     ['inputs', 'configurations'], 'every option, every argument value',
     'Tests parse a handful of fixed command lines and never exercise parse errors, the sample program or most options.',
     ['buildcc/lib/args/src/args.cpp', 'buildcc/lib/args/src/parse.cpp', 'buildcc/lib/args/src/register.cpp', 'buildexe/src/args_setup.cpp', ENV + 'src/env.cpp'], [('AddToolchain, AddTarget, RootArgs', 'buildcc/lib/args/src/args.cpp'), ('SystemInit', 'buildcc/lib/args/src/register.cpp')],
     technique=INTERP + '; binding of options to storage locations', note='CLI11 itself is trusted: an option writes the variable it was bound to, falls back to its default value, and a parse error is thrown as CLI::ParseError.')
prop('C27', 'A file was written or read completely, or failure is reported',
     'save_file returns true exactly when the whole data has replaced the content of the named file (including data still buffered when the file is closed); load_file returns true exactly when the buffer holds the complete content. Null arguments, a file that cannot be opened, a directory, a failing or short read and a failing write are reported as failure.',
     ['fault_sequences', 'inputs'], 'every fault of open, write, flush, read and stat, text and binary, every content',
     'A full disk, an I/O error or a short read cannot be provoked by the unit tests; every record of the build system is written and read through these two functions.',
     [ENV + 'include/env/util.h'], [('save_file, load_file', ENV + 'include/env/util.h')],
     technique=INTERP + '; stream state bits under fault enumeration', note='The standard semantics of the stream state bits (good, fail, bad, eof) is modelled; the operating system is trusted to report errors on write and close (no fsync claim).')
prop('C28', 'compile_commands.json lists exactly the commands of the build',
     'The compilation database contains one entry for every source and precompiled header command of every added target, in the build directory, with the working directory, the file and the command that the build uses, encoded as valid JSON for every path and flag; it is written to the project build directory when an added target was built or the file is missing, and only then; a failing write is a fatal error.',
     ['inputs', 'configurations'], 'every set of targets, sources, paths and flags',
     'There is no test of the plugin; paths with quotes, backslashes or spaces break naive string formatting.',
     ['buildcc/plugins/src/clang_compile_commands.cpp'], [('ClangCompileCommands::Generate', 'buildcc/plugins/src/clang_compile_commands.cpp')],
     technique=INTERP, note='Up to two (thorough: three) targets. nlohmann::json is trusted to encode values.')
prop('C29', 'Generic toolchains and targets equal the specific ones',
     'A generic target of a toolchain has the type, configuration, compilers and flags of the specific target of that toolchain family and type, or the configuration given by the user, and an unsupported toolchain id is a fatal error. Static libraries are linked with the archiver, dynamic libraries as shared objects. Toolchain_generic::New creates, under the given identifier and name, the toolchain of the requested id with the given or the documented default executables, the given or the default configuration and the verification callback of that family, and is fatal for an unsupported id, for Clang and Custom without executables and for an identifier in use.',
     ['configurations', 'inputs'], 'every toolchain id, target type, configuration and set of executables',
     'Tests construct a few combinations and compare almost nothing of the result.',
     ['buildcc/targets/include/targets/target_generic.h', 'buildcc/toolchains/src/toolchain_aggregate.cpp', 'buildcc/toolchains/src/toolchain_infos.cpp'],
     [('ExecutableTarget_generic, StaticTarget_generic, DynamicTarget_generic, Target_generic', 'buildcc/targets/include/targets/target_generic.h'), ('Toolchain_generic::New', 'buildcc/toolchains/src/toolchain_aggregate.cpp')],
     technique=INTERP + '; equivalence of constructors', note='Known findings: the configuration given by the user is discarded by every Initialize() of the shipped toolchains (five call sites).')
prop('C30', 'Toolchain search finds exactly the complete toolchains; Verify is all or nothing',
     'Find returns, in order, exactly those given search paths and then entries of the named environment variables that are readable directories and contain every executable of the toolchain as a regular file of exactly that name; missing or unreadable paths are skipped without failing, a missing environment variable is fatal. Verify is fatal if nothing is found, there is no information callback or it gives nothing, and then leaves the executables alone; otherwise it replaces all five executables by the plain paths of those in the first path found and reports that path with the information of the callback, which was asked about the same executables. The information of the gcc family is the first output line of the (quoted) C++ compiler for -dumpversion and -dumpmachine, of msvc the variables of its environment, and nothing if any of them fails or is missing.',
     ['inputs', 'fault_sequences', 'configurations'], 'every search path, environment, directory content and executable name, every failing query',
     'Tests look at one good, one missing and one locked directory with fixed names.',
     ['buildcc/lib/toolchain/src/api/toolchain_find.cpp', 'buildcc/lib/toolchain/src/api/toolchain_verify.cpp', 'buildcc/toolchains/src/toolchain_infos.cpp'],
     [('Find', 'buildcc/lib/toolchain/src/api/toolchain_find.cpp'), ('Verify', 'buildcc/lib/toolchain/src/api/toolchain_verify.cpp')],
     technique=INTERP + '; constant directories and environments', note='Directory contents are enumerated per way in which an executable can be missing (absent, not a regular file, status error, similar name), one and two (thorough: three) search paths. Host: Linux (no executable extension).')

prop('C31', 'Concurrent steps share no unprotected state',
     'Two steps that may run at the same time (compiling two sources of one target, the callbacks of two ids of a generator, two tests, and any steps of two different builders) never access the same object with at least one of them writing unless both hold a common mutex or the object is atomic. This covers the build record of a target, the process-wide task state, and the state of the helpers every step uses (running and constructing commands, reading and saving files, logging).',
     ['schedules'], 'every interleaving the task graph admits, every path through each step (recompiling, up to date, failing)',
     'A race shows on few schedules and then usually only corrupts data.',
     [TGT + 'tasks.cpp', GEN, REG + 'src/register.cpp', 'buildcc/lib/env/src/task_state.cpp', 'buildcc/schema/src/target_serialization.cpp', 'buildcc/lib/env/src/command.cpp'],
     [('compile tasks', TGT + 'tasks.cpp'), ('task state', 'buildcc/lib/env/src/task_state.cpp'), ('record update lock', 'buildcc/schema/src/target_serialization.cpp')],
     technique='lockset data-race analysis: abstract interpretation records every memory access of every task instance with the locks held; conflicting unordered pairs need a common lock',
     note='Two sources, two ids, two tests stand for any number (instances are symmetric). User callbacks, spdlog, tiny-process-library and taskflow are trusted to be thread-safe; the header of each builder is assumed not to be edited while the build runs.')
prop('C32', 'Builders read and write where their environment says',
     'Project::Init makes its two directories the project root and build directory until Deinit, after which the project counts as not initialised and the old directories are gone. An environment of a builder is the project root and build directory, the given directory below the project root, or exactly the two given directories. A target builds below its environment build directory in <toolchain>/<name>, a generator in <name>; both create that directory when constructed and keep their record, and a target its output, directly in it; names of output and record hold the builder name, and targets differing in name or toolchain have different identifiers. Neither can be constructed before Project::Init, nor a target with an invalid type. The reserved patterns of a generator stand for its root and build directories, and patterns are stored and parsed in expanded form.',
     ['inputs', 'configurations'], 'every directory, name, toolchain and target type',
     'Tests use a handful of fixed relative directories.',
     ['buildcc/lib/target/include/target/common/target_env.h', 'buildcc/lib/target/src/target/target.cpp', GEN],
     [('TargetEnv', 'buildcc/lib/target/include/target/common/target_env.h'), ('Target constructor', 'buildcc/lib/target/src/target/target.cpp'), ('CustomGenerator::Initialize', GEN)],
     note='Paths are symbolic; two paths are compared component by component.')
prop('C33', 'A typed blob handler compares and stores values exactly',
     'Deserialising what a typed blob handler serialised gives the value back; it serialises the value as it is at that moment; two blobs are equal exactly if their values are; blobs that are truncated or have trailing bytes are rejected. A generator compares the recorded and the current blob only after both were accepted by the handler and reports a change exactly if the handler calls them different; a blob the handler itself rejects is never used or recorded.',
     ['inputs'], 'every value of the type and every byte string',
     'Tests serialise one or two values.',
     ['buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h'], [('CustomBlobHandler::CheckChanged', 'buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h')],
     note='MessagePack round trip of nlohmann::json and the user to_json/from_json pair are trusted.')
prop('C34', 'Every source of a target has its own object file',
     'Two different sources of one target never share an object file: if the mapping sends them to the same path the target is refused before anything is compiled, and it is not refused otherwise (one source listed twice included). Below the target root the object path keeps the directory, name and extension of the source, so that no two sources collide there.',
     ['inputs'], 'every pair of source paths',
     'Tests never list two sources of the same name in different directories.',
     ['buildcc/lib/target/src/target/friend/compile_object.cpp'], [('CompileObject::AddObjectData', 'buildcc/lib/target/src/target/friend/compile_object.cpp')],
     note='Pairs of sources; the mapping is analysed as a path expression over the source path, sources outside the root only through the duplicate check.')

BUILDEXE = 'buildexe/src/'
prop('C35', 'The build executable builds and runs exactly what it was told',
     'For every command line, buildexe creates one user target with the given name, type and root, and every value of every input option (sources, include and library directories, external libraries, each kind of flag) reaches the matching contents of that target, in order and nowhere else, before it is built once. In script mode the target additionally takes over and links libbuildcc, waits for it, gets every listed library file according to its kind and a generated, tracked header with the plain directory of every installed library; in immediate mode none of this happens. The steps run in order (home directory, command line, toolchain found and verified, setup, run), a failing step ends the program as a failure, script mode then runs the built program with every configuration file as one argument and fails if it fails. The home directory is accepted only if all its parts exist; a host toolchain only if the trial program was built and ran.',
     ['inputs', 'fault_sequences'], 'every mode, every set of inputs, library files and failing step',
     'No test runs the build executable.',
     [BUILDEXE + 'build_env_setup.cpp', BUILDEXE + 'build_env_home.cpp', BUILDEXE + 'args_setup.cpp', BUILDEXE + 'toolchain_setup.cpp', 'buildexe/buildexe.cpp'],
     [('BuildEnvSetup::Setup', BUILDEXE + 'build_env_setup.cpp'), ('BuildccHome::Init', BUILDEXE + 'build_env_home.cpp'), ('host_toolchain_verify', BUILDEXE + 'toolchain_setup.cpp')],
     note='Command line values are symbols (up to two per option, three sources, two libraries, three library files); what CLI11 makes of argv is trusted.')

prop('C36', 'libbuildcc is built from all of its sources and rebuilt for any change to them',
     'The bootstrap description of libbuildcc names every directory of the source tree that holds library sources exactly once, makes every include root an include directory and tracks every directory with public headers, so that a change to any source or header of buildcc rebuilds it. It takes over the include directories and headers of every third party library, links the process library and, on Linux with GCC, threads. Every library has its own root and the build directory of the package, its own callback which runs before libbuildcc is described, the common flags before it is built, and libbuildcc waits for the process library.',
     ['inputs'], 'every directory of the source tree and every supported toolchain',
     'No test bootstraps the library.',
     ['bootstrap/src/build_buildcc.cpp', 'bootstrap/src/build_tpl.cpp'], [('buildcc_cb', 'bootstrap/src/build_buildcc.cpp'), ('BuildBuildCC::Setup', 'bootstrap/src/build_buildcc.cpp')],
     note='Directories are those of the source tree under analysis (tests and mocks excluded); branches for Windows are not compiled here. Third party sources are not present, only that their callbacks name include directories and headers is checked.')

prop('C37', 'The executable search finds all matching entries of the path and nothing else',
     'BuildccFind::Search returns true exactly if some entry of a directory listed in one of the given environment variables has a file name that fully matches the expression; GetPathMatches then holds the full path of every such entry, in the order of the variables, the directories in them and the entries. A variable that is not set, an empty element and a directory that cannot be read are skipped without losing others; the search kinds that are not implemented find nothing.',
     ['inputs', 'fault_sequences'], 'every environment, directory content and expression',
     'Tests search for one executable in the PATH of the machine.',
     ['buildcc/plugins/src/buildcc_find.cpp', 'buildcc/plugins/include/plugins/buildcc_find.h'], [('BuildccFind::Search', 'buildcc/plugins/src/buildcc_find.cpp')],
     note='Up to three variables and three directories; which names the expression matches is enumerated, std::regex itself is trusted. One call of Search per object.')

# Properties a user relies on which this family cannot decide here
prop('C90', 'A crash at any instant never leaves outputs that pass for current',
     'If the build is killed at any instant, including while a compiler or the record is being written, the next build does not accept an output that differs from what its current inputs produce.',
     ['crash_points'], 'every instant of a build, every state of the disk after it',
     'Tests never kill a build.',
     ['buildcc/lib/target/src/target/tasks.cpp', 'buildcc/lib/env/include/env/util.h'], [('record stored after the last step', 'buildcc/lib/target/src/target/tasks.cpp')])
prop('C91', 'Every run ends',
     'Whatever is registered and however the workers are scheduled, Reg::Run returns: no step waits for another for ever.',
     ['schedules'], 'every schedule of every number of workers',
     'Tests run a few graphs on one machine.',
     ['buildcc/lib/args/src/register.cpp'], [('task graph of the run', 'buildcc/lib/args/src/register.cpp')])
NA = [('C90', 'Depends on what the file system holds after a crash (write ordering, partially written objects, restored time stamps); the source only fixes the order in which record and outputs are written, which C06, C10 and C11 decide.'),
      ('C91', 'Termination depends on the scheduler of taskflow, on child processes and on user callbacks, none of which a static argument over this source can bound; that the declared graph is acyclic is decided by C22.')]
