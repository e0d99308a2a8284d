"""Tables tying properties to specification modules and replay harnesses."""
MODULES = ['target', 'schema', 'env', 'gen', 'api', 'cmds', 'reg', 'tool', 'args', 'sync']
HARNESS = {p: ['h_target'] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06')}
for p in ('C07', 'C08', 'C20', 'C21', 'C22', 'C23', 'C26', 'C05', 'C16'):
    HARNESS.setdefault(p, []).append('h_env')
for p in ('C06', 'C07', 'C09', 'C10', 'C11'):
    HARNESS.setdefault(p, []).append('h_gen')
for p in ('C15', 'C16', 'C17', 'C18', 'C19'):
    HARNESS.setdefault(p, []).append('h_api')
for p in ('C06', 'C12', 'C13', 'C14'):
    HARNESS.setdefault(p, []).append('h_reg')
for p in ('C24', 'C27', 'C28', 'C29'):
    HARNESS.setdefault(p, []).append('h_tool')
HARNESS['C25'] = ['h_exec']
HARNESS['C32'] = ['h_args']
HARNESS['C30'] = ['h_race']
TSAN = ('h_race',)
ITERS = {'h_target': 400, 'h_env': 300, 'h_exec': 100, 'h_gen': 500, 'h_api': 400, 'h_reg': 1000, 'h_tool': 600, 'h_args': 400, 'h_race': 60}
SINGLE = ()
REQUIRED = {}
ASSUME = {}
_T = 'Every obligation of the named units is discharged for all inputs, list lengths and failure patterns; the library contracts listed in the evidence (std, fmt, nlohmann::json, Taskflow, file system) are assumed. '
CLAIMED = {
    'C01': _T + 'Source-level: the compile stage of a target.',
    'C02': _T + 'Source-level: PCH, compile, link and end stages.',
    'C03': _T + 'Source-level: link stage and the dirty flag of the earlier stages.',
    'C04': _T + 'Source-level: PCH stage including the text of the aggregate header.',
    'C05': _T + 'Source-level: all stages plus the record writer; the record text is read back by the repository\'s own loader.',
    'C06': _T + 'Source-level: all target stages; sequential schedule of tasks as ordered by the task graph.',
    'C07': _T + 'Both record kinds, writer and reader together, for arbitrary field values.',
    'C08': _T + 'The reader of both record kinds on an arbitrary file content and an arbitrary parsed JSON value.',
    'C09': _T + 'Registration of ids, the per-id task and the generator task, for any number of ids; a generator callback is assumed not to change the inputs of other ids while the run is in progress.',
    'C10': _T + 'The generator task and its record; same assumption on callbacks as C09.',
    'C11': _T + 'File and template generators, their callbacks and the blob handler of the file generator.',
    'C12': _T + 'Registration and dependency declaration on an arbitrary graph; the search loop by a worklist invariant (partial correctness: it ends because the graph is acyclic); Taskflow\'s graph queries are assumed contracts.',
    'C13': _T + 'All four condition combinations, symbolic; templates instantiated at std::function callbacks, BaseTarget and FileGenerator.',
    'C14': _T + 'The runner of one test and the loop over all tests; Taskflow\'s for_each is an assumed contract (each element once).',
    'C15': _T + 'Copy and Insert from a const source for arbitrary option lists; from a moved-from source for lists of one and two distinct options (labelled bounded).',
    'C16': _T + 'Every Add and Glob call and every getter; the initial flags of a target.',
    'C17': _T + 'Classification, rejection, and the compiler and flags put into every compile command.',
    'C18': _T + 'The three command constructors and Target::Build that calls them, for any number of sources, flags, directories and libraries; Command::Construct is used by its contract (C21).',
    'C19': _T + 'The constructor of a target, the object path of a source and the lemma that objects differ; lexical path operations are assumed std::filesystem contracts.',
    'C20': _T + 'Storage members (templates instantiated at a probe type).',
    'C21': _T + 'Command construction and the default-argument table; the text substitution itself is the assumed contract of fmt::vformat.',
    'C22': _T + 'The file helpers against stream contracts with arbitrary failures.',
    'C23': _T + 'Path normalisation and quoting; lexical normalisation itself is the assumed contract of std::filesystem.',
    'C24': _T + 'Find and Verify for any search list and any directory contents; directory listing and file status are assumed file-system contracts that may fail or throw.',
    'C25': _T + 'The real process launcher (no existing test compiles it); TinyProcessLib is an assumed contract.',
    'C26': _T + 'The text helpers on arbitrary strings.',
    'C27': _T + 'The generated text for any number of targets and sources, read as JSON; nlohmann\'s quoting of a string is an assumed contract; the targets are assumed to be set up (Target::Build).',
    'C28': _T + 'The metadata table for every id (also undeclared ones), Toolchain_generic::New for every id, identifier and optional argument, and every info callback; Storage is used by its contract (C20).',
    'C29': _T + 'Every specialised class with its default and with a given configuration, and the generic classes for every toolchain id and target type.',
    'C30': _T + 'Lock discipline as ghost state: every memory access of a task is recorded with the locks held, for an arbitrary task of every kind (thread-modular: any number of tasks, any schedule). Assumed: std::mutex and std::atomic, the orderings Taskflow promises (a sub-task runs after the task that spawned it returns or joins), thread safety of the logging, file system and process libraries.',
    'C32': _T + 'Registration of every option with the variable, default, table and subcommand it belongs to, for any name and default; CLI11\'s parsing is an assumed contract (a registered option writes exactly its variable).',
}
NA = {
    'C31': 'termination and the scheduling of tasks are provided by Taskflow, an external library with no contract that could be discharged from /repo\'s code',
}
