#!/usr/bin/env python3
# Regenerates properties.jsonl (kept in git; edit here, then run).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
T='buildcc/lib/target/'; S='buildcc/schema/'; E='buildcc/lib/env/'; A='buildcc/lib/args/'; TC='buildcc/lib/toolchain/'
p('C01','A source is skipped only when nothing its object depends on has changed',
  "When a target is built, a source file is left uncompiled only if a valid record of an earlier build was loaded and that record agrees with the present build on preprocessor, common, pch-object, asm, C and C++ compile flags, include directories, headers, PCH files and compile dependencies (file lists including each file's current timestamp) also lists that source with its current timestamp, and the precompiled header was not rebuilt in this build. In every other case the compile command of that source is run, exactly once per listed source.",
  ['inputs','histories','configurations'],'every previous record, every current flag/path/timestamp combination, every number and order of sources',
  'the tests run a handful of rebuild scenarios with one or two files and one changed input at a time; they cannot cover every field, position and combination',
  [T+'src/target/friend/compile_object.cpp',T+'src/target/tasks.cpp',S+'include/schema/path.h',S+'include/schema/target_schema.h'],
  [('comparison of loaded and current inputs','CompileObject::BuildObjectCompile'),('per-source comparison','CompileObject::RecompileSources'),('one compile task per selected source','CompileObject::Task'),('current timestamps','PathInfoList::ComputeHashForAll')],
  [('load record','what the previous build stored','TargetSerialization::load_'),('user schema','current inputs','TargetInfo::user_')],['commands handed to env::Command::Execute'])
p('C02','No needless work: an unchanged source or target is never rebuilt',
  "When a valid record agrees with the present build on all compile inputs and the precompiled header (if any) was up to date, a listed source (sources being listed once each) whose recorded timestamp equals its current one is not compiled. If in addition the source set, PCH and all link inputs are unchanged and the record says the PCH and target were completed, the build runs no command at all and does not rewrite the record.",
  ['inputs','histories'],'every record that matches the current inputs, any number of (distinct) sources',
  'tests check a no-op rebuild for two or three fixed targets only',
  [T+'src/target/friend/compile_object.cpp',T+'src/target/friend/compile_pch.cpp',T+'src/target/friend/link_target.cpp',T+'src/target/tasks.cpp'],
  [('dirty flag','BuilderInterface::dirty_'),('selection of changed sources','CompileObject::RecompileSources'),('store only if dirty','Target::EndTask')],
  (),['commands executed','record file writes'])
p('C03','The link step runs exactly when an object or a link input changed',
  "While no failure has occurred, the link command is executed (once) if and only if no valid record was loaded, or an earlier stage of this build found something to rebuild, or link flags, library directories, external libraries, link dependencies or libraries (with timestamps) differ from the record, or the record says the target was not linked. The target is recorded as linked only after that command succeeded or when the record needs no rewrite.",
  ['inputs','histories','fault_sequences'],'every record and every current link input, link success or failure',
  'tests vary one link input at a time on one target',
  [T+'src/target/friend/link_target.cpp',T+'src/target/tasks.cpp'],
  [('link decision','LinkTarget::BuildLink'),('timestamps of libs and link deps','LinkTarget::PreLink')],(),['link command executed','target_linked in the record'])
p('C04','The PCH is regenerated and recompiled exactly when its inputs changed',
  "For a target with PCH files and no failure so far, the aggregate header is rewritten and the PCH compile command executed (once) if and only if no valid record was loaded or preprocessor, common, pch-compile, C or C++ flags, include directories, headers or PCH files (with timestamps) differ from the record, or the record says the PCH was not compiled. The aggregate header contains one include line per PCH file, in the order given; an already existing PCH source file is left alone and a missing one is created.",
  ['inputs','histories','fault_sequences'],'every record, every PCH list, write or compile failures',
  'tests use one PCH file and a few changed inputs',
  [T+'src/target/friend/compile_pch.cpp',T+'src/target/tasks.cpp'],
  [('PCH decision','CompilePch::BuildCompile'),('aggregate header','AggregateToFile')],(),['PCH command executed','contents of the aggregate header'])
p('C05','The stored record never claims work that was not done',
  "Whatever fails and in whatever order, the record written at the end of a build lists a source only if it was unchanged with respect to a valid record or its compile command succeeded in this build, always with the timestamp taken before compiling; it marks PCH or target as completed only if that step succeeded (or was up to date) in this build; every other field is the target's current input. The record is written only if something was dirty, and a failed write is reported as a build failure.",
  ['fault_sequences','histories','inputs'],'every subset of failing commands and every prior record',
  'tests inject one failure at a time into one small target',
  [T+'src/target/tasks.cpp',S+'src/target_serialization.cpp',T+'src/target/friend/link_target.cpp'],
  [('add source after success','CompileObject::Task'),('merge of stored and user fields','TargetSerialization::UpdateStore'),('store','Target::EndTask')],
  [('store record','record under construction','TargetSerialization::store_')],['record file written at end of build'])
p('C06','A failure stops later stages and fails the build',
  "After any command, callback or internal check fails in a build task, the global task state is FAILURE and is never reset by any build task; every target or generator stage that starts afterwards executes no command and no callback; the run ends in a fatal error. Within a target the stages are ordered PCH, objects, link, record; no exception escapes a build task.",
  ['fault_sequences','schedules','histories'],'every stage, every failing command or check',
  'tests inject a single failure and look at one stage',
  [T+'src/target/tasks.cpp',T+'src/custom_generator/custom_generator.cpp',E+'src/task_state.cpp',A+'src/tasks.cpp'],
  [('task state gate','env::get_task_state checks at stage entry'),('catch-all','try/catch around every stage'),('ordering','Target::TaskDeps'),('final check','Reg::Instance::RunBuild')],(),['commands executed after a failure','exit of Reg::Run'])
p('C07','Build records round-trip through their file format',
  "For every target record and every generator record whose strings are valid UTF-8, storing it and loading the file yields a record equal in every field (names, types, ordered path/timestamp lists, flags, blobs, completion flags).",
  ['inputs'],'every record value',
  'tests round-trip two or three literal records',
  [S+'include/schema/target_schema.h',S+'include/schema/custom_generator_schema.h',S+'include/schema/path.h',S+'src/target_serialization.cpp',S+'src/custom_generator_serialization.cpp'],
  [('to_json/from_json pairs','TargetSchema, CustomGeneratorSchema, PathInfo, PathList, PathInfoList')],(),['GetLoad after StoreToFile + LoadFromFile'])
p('C08','A missing, torn or foreign record file is treated as no record',
  "Loading a record file that is absent, unreadable, a directory, not JSON, truncated, or JSON lacking a required field or having one of the wrong type reports not-loaded and raises no error, for target and generator records alike, also when an earlier load of the same object had succeeded; loading never modifies the file. Only a complete, well-typed record reports loaded (an unknown target type name in it reads as undefined).",
  ['crash_points','inputs'],'every possible content of the record file',
  'tests use one garbage file and one missing-field file',
  [S+'include/schema/interface/serialization_interface.h',S+'src/target_serialization.cpp',S+'src/custom_generator_serialization.cpp',S+'include/schema/target_schema.h',S+'include/schema/custom_generator_schema.h'],
  [('parse without exceptions, catch conversion errors','TargetSerialization::Load, CustomGeneratorSerialization::Load'),('file checks','SerializationInterface::LoadFromFile')],(),['IsLoaded'])
p('C09','A generator callback runs exactly when its id is new or changed',
  "In a custom generator with no failure so far, the callback of an id runs (once) if and only if no valid record was loaded, the id is not in the record, its inputs (with timestamps) or outputs differ from the record, or its blob handler reports the blob changed. The callback receives exactly that id's inputs, outputs and current blob.",
  ['inputs','histories'],'every record and every set of ids',
  'tests use two ids and a few changes',
  [T+'src/custom_generator/custom_generator.cpp',T+'include/target/custom_generator.h',T+'include/target/custom_generator/custom_blob_handler.h'],
  [('id comparison','Comparator'),('per-id task','TaskFunctor'),('task creation','CustomGenerator::GenerateTask')],(),['callback invocations and their context'])
p('C10','The generator record lists exactly the ids that are up to date',
  "When a generator finishes, its record is rewritten if and only if the record was not loaded, an id was added or removed, or a callback was run; it then contains exactly the current ids whose check and callback (if run) succeeded, with their inputs (with timestamps), outputs and blob as they were when checked, before the callback ran, so an input modified meanwhile is noticed by the next build, and a failed, removed or never-run id is absent. A failed write is reported as a build failure.",
  ['fault_sequences','histories'],'every subset of failing callbacks and every record',
  'tests fail one of two ids',
  [T+'src/custom_generator/custom_generator.cpp',T+'include/target/custom_generator.h'],
  [('final schema from run_success states','CustomGenerator::GenerateTask'),('conversion','UserCustomGeneratorSchema::ConvertToInternal')],(),['generator record file'])
p('C11','File and template generators do what was registered, in order',
  "A file generator executes its commands in the order added, each built from its pattern, stops at the first failing command and then reports failure; it is re-run when its command list changes. A template generator writes, for each registered template, the input file's contents with every known placeholder substituted to the output path, and reports failure if the input cannot be read, the pattern is malformed or the output cannot be written.",
  ['inputs','fault_sequences'],'every list of commands/templates, every failing position',
  'tests use one or two commands',
  [T+'src/generator/file_generator.cpp',T+'src/generator/template_generator.cpp'],
  [('command loop','FileGeneratorGenerateCb'),('template callback','template_generate_cb')],(),['commands executed','output file contents'])
p('C12','The dependency graph of registered builders stays acyclic and simple',
  "Declaring a dependency is a fatal error if either builder was not registered, if the same dependency was already declared, or if it would close a cycle of any length including a self-dependency; otherwise exactly that one ordering (dependency before target) is added. Registering the same builder twice is a fatal error.",
  ['inputs','histories'],'every sequence of registrations and dependency declarations',
  'tests try a two-node and a three-node cycle',
  [A+'src/register.cpp',A+'src/tasks.cpp',A+'include/args/register.h'],
  [('duplicate check','DepDetectDuplicate'),('cycle search','DepDetectCyclicDependency'),('edge','Reg::Instance::Dep'),('registration','Reg::Instance::BuildStoreTask')],(),['edges of the build task graph'])
p('C13','Disabled toolchains and conditions register nothing',
  "Through a toolchain or callback registration with its build condition false, no callback is invoked and nothing is built, depended on or tested; with it true each of these takes effect exactly once, and tests are registered only when both build and test are true. A test can be registered only for a registered builder and only once per target.",
  ['configurations','inputs'],'every combination of build/test state',
  'tests check a few combinations',
  [A+'src/register.cpp',A+'include/args/register.h'],
  [('condition checks','Reg::ToolchainInstance, Reg::CallbackInstance'),('test registration','Reg::Instance::Test')],(),['callbacks invoked','registered tests and tasks'])
p('C14','Each registered test runs its command with the configured redirection',
  "Running tests executes each registered test exactly once: the command is its pattern with {executable} replaced by the target's output path plus the user's arguments, run in the configured working directory with stdout/stderr captured exactly as its output type says; user redirection passes the user's own buffers. A failing test command raises a fatal error.",
  ['configurations','inputs'],'every output type, command, argument map and working directory',
  'tests sample one command and the listed output types',
  [A+'src/register.cpp',A+'include/args/register/test_info.h',A+'src/tasks.cpp'],
  [('test runner','TestInfo::TestRunner'),('iteration','Reg::Instance::RunTest')],(),['Execute arguments'])
p('C15','Copy and Insert touch exactly the selected fields',
  "Copying from another target with a list of options replaces exactly the selected fields with the source's values; inserting appends the source's values, in order, to exactly the selected fields; all unselected fields are unchanged. When the source is passed as const it is left unmodified (when it is moved from, each option is to be listed once); an unknown option is a fatal error.",
  ['inputs','configurations'],'every option list and every field content, including repeated options',
  'tests check each option on small lists, not that the others stay untouched',
  [T+'src/api/sync_api.cpp',T+'include/target/api/sync_api.h',S+'include/schema/path.h'],
  [('copy','SyncApi::SpecializedCopy'),('insert','SyncApi::SpecializedInsert')],(),['all getters of both targets'])
p('C16','Every Add call records exactly its argument in exactly its list',
  "Each call that adds a flag, source, header, PCH, include or library directory, library, or compile/link dependency appends exactly one entry (path entries normalised and made absolute against the target root when relative) to the end of the one list it names and changes nothing else; a glob adds exactly the matching files of that one directory, in directory order; the getters return those lists. A new target starts with its toolchain's flags, kind by kind and in order.",
  ['inputs','histories'],'every sequence of Add calls and every argument',
  'tests add a few values per list',
  [TC+'include/toolchain/api/flag_api.h',T+'include/target/api/source_api.h',T+'include/target/api/include_api.h',T+'include/target/api/lib_api.h',T+'include/target/api/pch_api.h',T+'include/target/api/deps_api.h',T+'src/api/lib_api.cpp',T+'src/target_info/target_info.cpp'],
  [('list appends','FlagApi, SourceApi, IncludeApi, LibApi, PchApi, DepsApi'),('inheritance','TargetInfo::Initialize')],(),['getters'])
p('C17','Files are classified by extension and compiled with the matching tool',
  "A path is C, C++, assembly or header exactly when its extension is in the toolchain's corresponding set (in that order of precedence) and invalid otherwise; adding a source that is not C/C++/assembly, or a header/PCH that is not a header, is a fatal error and adds nothing. Each source is compiled with the compiler and language flags of its class.",
  ['inputs','configurations'],'every path and every toolchain extension configuration',
  'tests use the default extension sets with a few names',
  [TC+'src/common/toolchain_config.cpp',TC+'include/toolchain/common/toolchain_config.h',T+'src/target/target.cpp',T+'src/target/friend/compile_object.cpp',T+'src/common/target_state.cpp'],
  [('classification','ToolchainConfig::GetFileExt/IsValidSource/IsValidHeader'),('selection','Target::SelectCompiler/SelectCompileFlags'),('detected kinds','TargetState::SourceDetected')],(),['compile commands','fatal errors'])
p('C18','Commands contain every configured input, in order, and nothing else',
  "The compile command of a source, the PCH command and the link command are the target's configured patterns with each placeholder replaced by the corresponding current value: all flags of the kind in order, all include/library directories with the toolchain prefix, the right compiler/archiver/linker, this source and its object, all objects, all libraries followed by external libraries.",
  ['inputs','configurations'],'every list of flags, directories, sources and libraries; every pattern',
  'tests compare one or two fixed command strings',
  [T+'src/target/build.cpp',T+'src/target/friend/compile_object.cpp',T+'src/target/friend/compile_pch.cpp',T+'src/target/friend/link_target.cpp',T+'include/target/common/util.h'],
  [('default arguments','Target::Build'),('compile commands','CompileObject::CacheCompileCommands'),('link command','LinkTarget::CacheLinkCommand'),('PCH command','CompilePch::ConstructCompileCommand'),('aggregation','aggregate, aggregate_with_prefix')],(),['GetCompileCommand, GetLinkCommand, executed commands'])
p('C19','Every artifact lives at its documented path inside the target build directory',
  "A target's build directory is its environment's build directory / toolchain name / target name; its output, record, PCH header, PCH output and objects lie under it with the configured extensions; the object of a source under the target root keeps the relative directory and full file name plus the object extension, and a source outside the root maps '.' to '_' in its relative directory. Two different sources under the target root get different objects.",
  ['inputs','configurations'],'every source path, target name, environment and toolchain configuration',
  'tests look at three or four paths',
  [T+'src/target/friend/compile_object.cpp',T+'src/target/friend/compile_pch.cpp',T+'src/target/friend/link_target.cpp',T+'include/target/target.h',T+'include/target/common/target_env.h',E+'src/env.cpp'],
  [('object path','CompileObject::ConstructObjectPath'),('output','LinkTarget::ConstructOutputPath'),('PCH paths','CompilePch::Construct*Path'),('target environment','Target constructor, TargetEnv')],(),['GetTargetPath, GetBinaryPath, object paths'])
p('C20','Typed storage returns the stored object and destroys each object once',
  "An object added to storage under a new identifier is returned by later typed lookups of that identifier, unchanged, until storage is cleared; lookup of an absent identifier or with a different type is a fatal error and Valid/Contains tell these cases apart. Adding under an identifier already in use is a fatal error that leaves the stored object in place, and an object whose constructor throws is not stored. Every stored object is destroyed exactly once, when storage is cleared or goes out of scope.",
  ['histories','inputs'],'every sequence of add/lookup/clear calls and every type',
  'tests store a few objects under distinct names',
  [E+'include/env/storage.h',E+'src/storage.cpp'],
  [('metadata map','ScopedStorage::Add/ConstRef/Valid/Clear')],(),['returned references, destructor calls'])
p('C21','Pattern construction substitutes exactly the registered arguments',
  "Constructing a command replaces every {key} placeholder by the value registered first under that key, or else by the argument passed for this call, and keeps all other text; an unknown placeholder or malformed pattern is a fatal error. Arguments passed to one construction do not persist to the next, and looking up an unregistered default value is a fatal error.",
  ['inputs','histories'],'every pattern, every default and per-call argument map',
  'tests use a few patterns',
  [E+'src/command.cpp',E+'include/env/command.h'],
  [('argument store','Command::Construct'),('defaults','Command::AddDefaultArgument(s), GetDefaultValueByKey')],(),['constructed strings'])
p('C22','File helpers report success only if the whole content was transferred',
  "Saving returns true only if the file was opened and all bytes were written to it, so the file then holds exactly the given bytes; loading returns true only for a file that is not a directory, could be opened and was read without error, and then yields exactly its bytes. Null arguments, directories, missing or unwritable files give false; no exception escapes for these.",
  ['inputs','fault_sequences'],'every content, every open/write/flush failure',
  'tests write small files on a healthy disk',
  [E+'include/env/util.h'],
  [('write and check','save_file'),('checks and read','load_file')],(),['return values and file contents'])
p('C23','Paths are normalised once and quoted when they contain spaces',
  "The stored form of a path is its lexical normal form with preferred separators, normalising it again changes nothing, and equal paths up to normalisation share one stored form. The form used in commands is the stored form, surrounded by double quotes exactly when it contains a space.",
  ['inputs'],'every path',
  'tests normalise a handful of literal paths',
  [S+'include/schema/path.h'],
  [('normalisation','PathInfo::ToPathString'),('quoting','PathInfo::ToPathDisplayString, fmt formatter for paths')],(),['command strings, stored paths'])
p('C24','Toolchain search returns exactly the directories holding all tools',
  "Finding a toolchain returns, in order, exactly those existing searched directories (explicit paths first, then each listed environment variable's entries) that contain a regular file whose stem matches each of the five configured tools; a missing environment variable is a fatal error. Verification picks the first of them, asks the toolchain's info callback, and only on success replaces the executables by absolute paths in that directory; otherwise it is a fatal error and the toolchain is unchanged.",
  ['inputs','configurations'],'every directory contents, environment and tool names',
  'tests use one directory with or without tools',
  [TC+'src/api/toolchain_find.cpp',TC+'src/api/toolchain_verify.cpp'],
  [('search','ToolchainFind::Find, ContainsToolchainExecutables'),('verification','ToolchainVerify::Verify')],(),['returned paths, executables after Verify'])
p('C25','A command counts as successful exactly when its process exits with 0',
  "Executing a command starts exactly one process with that command line in the given working directory and returns true if and only if its exit status is 0; an empty command is a fatal error. When a capture list is supplied every chunk of that stream is appended to it in order, and a stream without a list is not captured.",
  ['inputs','fault_sequences'],'every command, exit status and output',
  'the real process code is replaced by a mock in every existing test',
  [E+'src/execute.cpp'],
  [('process start and status','Command::Execute')],(),['return value and captured output'])
p('C26','String splitting and trimming follow their definition',
  "Splitting by a delimiter returns the delimiter-free pieces in order such that joining them with the delimiter gives the text back (up to one trailing delimiter). Trimming left, right or both removes exactly the maximal run of whitespace on that side and nothing else.",
  ['inputs'],'every string and delimiter',
  'tests use a few literals',
  [E+'include/env/util.h'],
  [('split','env::split'),('trim','env::ltrim, rtrim, trim')],(),['return values'])
p('C27','compile_commands.json lists every source of every added target',
  "If at least one added target was rebuilt, the generated compilation database has exactly one entry per source of each added target, in order, holding the project build directory, that source's compile command and that source; otherwise the file is not touched. Failure to write is a fatal error, and adding a null target is a fatal error.",
  ['inputs','histories'],'every list of targets and sources',
  'tests use one target with one source and do not inspect all entries',
  ['buildcc/plugins/src/clang_compile_commands.cpp'],
  [('generation','ClangCompileCommands::Generate'),('registration','ClangCompileCommands::AddTarget')],(),['contents of compile_commands.json'])
p('C28','Generic toolchains get the metadata of their id and a unique identity',
  "Creating a toolchain by id yields a toolchain of that id, with the given name, the given executables (or that family's default ones) and that id's configuration and info callback; reusing an identifier, an undefined id, or a custom/clang id without executables is a fatal error. The version callback of the gcc family succeeds exactly when both queries of the C++ compiler succeed with output.",
  ['configurations','inputs'],'every id, name and executables',
  'tests create each kind once',
  ['buildcc/toolchains/src/toolchain_aggregate.cpp','buildcc/toolchains/src/toolchain_gcc.cpp','buildcc/toolchains/src/toolchain_msvc.cpp','buildcc/toolchains/src/toolchain_infos.cpp','buildcc/toolchains/include/toolchains/toolchain_gcc.h'],
  [('creation','Toolchain_generic::New'),('metadata','GlobalToolchainMetadata'),('gcc info','GetGccToolchainInfo')],(),['toolchain getters'])
p('C29','Specialised targets carry the documented extension, commands and flags',
  "Each gcc, mingw and msvc target class has its family's extension and command patterns for its kind and adds exactly the family's default flags after the toolchain's own; a generic target has the configuration and flags of the family and kind selected by its toolchain id and type, and an unsupported id or type is a fatal error.",
  ['configurations'],'every toolchain id, target kind and toolchain flags',
  'tests construct each class once and look at few fields',
  ['buildcc/targets/include/targets/target_gcc.h','buildcc/targets/include/targets/target_mingw.h','buildcc/targets/include/targets/target_msvc.h','buildcc/targets/include/targets/target_generic.h'],
  [('configs','GccConfig, MingwConfig, MsvcConfig, GenericConfig'),('default options','DefaultGccOptions, DefaultMsvcOptions')],(),['GetConfig and flag getters'])
p('C30','Concurrent build tasks never race on shared state',
  "Whatever the interleaving of the tasks of a build - the tasks of different targets and generators, the compile tasks of one target, the tasks of the ids of one generator, the registered tests - the shared record under construction, the global task state and everything else that more than one of them can reach are accessed without data races: any two accesses that may happen at the same time, at least one of them a write, hold a common lock. No task takes a lock it already holds or keeps one when it ends, no source recorded by one task and no failure reported by one task is lost. User callbacks and the vectors a user hands in for test output are the user's own responsibility.",
  ['schedules'],'every interleaving of tasks of one or more targets, generators and tests, for all inputs',
  'tests run under one schedule and mostly one worker',
  [S+'src/target_serialization.cpp',E+'src/task_state.cpp',T+'src/target/tasks.cpp'],
  [('locks','TargetSerialization::add_source_mutex, current_state_mutex')],(),['record and task state'])
p('C31','Every build run terminates and runs every registered task',
  "For every acyclic set of registered builders a build run terminates, and each task is executed exactly once after all its dependencies.",
  ['schedules','programs'],'every acyclic graph and every schedule',
  'tests run small graphs',
  [A+'src/tasks.cpp'],[('executor','Reg::Instance::RunBuild, Taskflow')],(),['executed tasks'])
p('C32','Command-line options reach the settings they name',
  "Each documented command-line or configuration option (--clean, --loglevel, --root_dir, --build_dir, --config, and for every added toolchain and target its own switches, id, name, tools and commands) sets exactly the setting it names; toolchain and target options that are not given take the default supplied on registration, switches that are not given stay off; the root and build directories are required, and a malformed command line ends the program with a usage error instead of continuing.",
  ['inputs'],'every argument vector and configuration file',
  'tests parse a few argument vectors',
  [A+'src/args.cpp',A+'src/parse.cpp'],[('option registration','Args::RootArgs, AddToolchain, AddTarget'),('parsing','Args::Instance::Parse (CLI11)')],(),['Args getters'])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
