ESP = "static analysis: path-sensitive abstract interpretation (ESP-style typestate) over the type-checked program's MIR, interprocedural"
NOTE = ("sound for the modelled effects on every path through the call graph, up to the stated abstraction (loops joined, dynamic "
        "dispatch by class hierarchy); no execution, no solver")

prop("P01", "Dry-run operations change nothing",
     "When an operation is asked to run dry (remove, copy, move, release, cache clean-up, removal of ignored packages, and every other "
     "operation with such a switch), it creates, changes, moves and deletes no file or directory and starts no external command other "
     "than a read-only query. This holds from every public entry point that takes the switch, whatever the other arguments are.",
     ["inputs", "configurations"], "all arguments and option combinations of every operation with a dry-run switch",
     "A test samples a few option combinations; the effect must be absent on every path that the flag allows.",
     ["src/cli/commands/rm.rs", "src/cli/commands/cp.rs", "src/cli/commands/mv.rs", "src/cli/commands/release.rs",
      "crates/rez-next-build/src/release.rs", "crates/rez-next-repository/src/package_repository/filesystem.rs"],
     [("dry-run guards", "every function that reads a dry_run field or parameter"),
      ("release modes", "crates/rez-next-build/src/release.rs ReleaseMode::DryRun")],
     ESP, NOTE)

prop("P02", "A read-only repository is never modified",
     "Through a repository that is marked read-only, no operation creates, changes or deletes a file, and operations that would have to "
     "modify the repository fail with an error instead. This holds for every public operation of repositories and of the managers built on them.",
     ["inputs", "histories"], "all operations and arguments on repositories marked read-only",
     "Tests call a few operations on one read-only repository; the guarantee is about every path of every operation.",
     ["crates/rez-next-repository/src/package_repository/filesystem.rs", "crates/rez-next-repository/src/filesystem.rs"],
     [("ensure_writable", "crates/rez-next-repository/src/package_repository/filesystem.rs")],
     ESP, NOTE)

prop("P04", "Copying or moving a package never loses files or the source",
     "Copying never removes or changes the source. Moving removes the source only after the whole package has been copied to the "
     "destination without a failed or left-out entry, and not at all when the caller keeps the source. A forced copy or move onto the "
     "package itself never destroys it, whatever step fails.",
     ["fault_sequences", "crash_points", "inputs"], "all failure points of the file-system steps of a copy or move, and all argument combinations",
     "A test sees the fault-free run on a small tree; the guarantee is about a failure at any step and any kind of entry.",
     ["src/cli/commands/cp.rs", "src/cli/commands/mv.rs", "crates/rez-next-package/src/package_copy.rs", "crates/rez-next-package/src/package_move.rs"],
     [("copy_dir_recursive", "crates/rez-next-package/src/package_copy.rs"), ("move_package", "crates/rez-next-package/src/package_move.rs"),
      ("mv/cp execute", "src/cli/commands/mv.rs, src/cli/commands/cp.rs")],
     ESP, NOTE)

prop("P05", "Existing packages are overwritten or deleted only on request",
     "Where installing a package (copy, move, the bind library, pip install) has a force or overwrite option, doing so without it at a place that already exists fails and "
     "leaves what is there untouched. Removing a whole family, or removing interactively, deletes only after the user's affirmative answer or "
     "with the force option. An unforced family removal through a repository deletes nothing unless the family was fully listed and holds no package.",
     ["inputs", "configurations", "fault_sequences"], "all destinations, option combinations and listing failures",
     "Whether a guard covers every path to a destructive call cannot be sampled.",
     ["src/cli/commands/cp.rs", "src/cli/commands/mv.rs", "src/cli/commands/rm.rs", "src/cli/commands/pip.rs", "crates/rez-next-package/src/package_copy.rs",
      "crates/rez-next-package/src/package_move.rs", "crates/rez-next-bind/src/binder.rs", "crates/rez-next-python/src/pip_bindings.rs",
      "crates/rez-next-repository/src/package_repository/filesystem.rs"],
     [("destination guards", "copy_package, move_package, cp::execute, mv::execute, PackageBinder::bind, write_pip_package"),
      ("confirmation", "src/cli/commands/rm.rs"), ("family emptiness test", "FilesystemPackageRepository::remove_package_family")],
     ESP, NOTE)

prop("P09", "A failed write, copy or delete is never reported as success",
     "If a file or directory cannot be created, written, copied, moved or deleted while an operation runs, the operation reports failure: an "
     "error, an unsuccessful result or a non-zero exit. The only exceptions are documented best-effort steps (scratch clean-up, last-access "
     "stamps, pruning of empty cache directories).",
     ["fault_sequences"], "a failure at any mutating file-system call of any operation",
     "Tests cannot inject a fault at each of several hundred call sites; the reporting path exists for each of them.",
     ["src/cli/commands", "crates/rez-next-package/src", "crates/rez-next-repository/src", "crates/rez-next-build/src", "crates/rez-next-context/src",
      "crates/rez-next-suites/src", "crates/rez-next-bind/src", "crates/rez-next-python/src"],
     [("error propagation", "every function that mutates the file system or calls one that does")],
     ESP, NOTE)

prop("P03", "Removing, copying or moving a package stays below the repository",
     "An operation that deletes, copies, moves or marks a package given by name and version never touches a path outside the "
     "directory of that package: a name or version that is not one plain path component (empty, '.', '..', absolute, or of several "
     "components) is rejected before anything is created, changed or deleted.",
     ["inputs"], "all package names and versions handed to the removal, copy, move and ignore operations of the library and the Python module",
     "Every hostile name at every entry point; a test samples one or two names at one of them.",
     ["crates/rez-next-package/src/package_remove.rs", "crates/rez-next-package/src/package_copy.rs", "crates/rez-next-package/src/package_move.rs",
      "crates/rez-next-repository/src/package_repository/filesystem.rs", "crates/rez-next-python/src/package_functions/management.rs"],
     [("component validation", "crates/rez-next-package/src/package_remove.rs, package_repository/filesystem.rs"),
      ("Python entry points", "crates/rez-next-python/src/package_functions/management.rs")],
     "static analysis: conditional constant propagation over the MIR, interprocedural", NOTE)

prop("P06", "A downloaded archive is used only after its checksum matched",
     "Self-update unpacks and installs an archive only after the SHA-256 of exactly that file, read to its end, compared equal to the entry "
     "of the published checksum list whose file name is the archive's name; a missing, unreadable or different checksum makes the update "
     "fail with the installed program untouched. When a checksum is configured for a binary-archive build, the archive is unpacked only after "
     "the same comparison, wherever the archive comes from.",
     ["inputs", "fault_sequences"], "all archives, checksum lists, option combinations and download failures",
     "A test can try one wrong checksum; the guarantee is that no path leads to unpacking without the comparison.",
     ["src/cli/commands/self_update.rs", "crates/rez-next-build/src/systems/binary_archive.rs"],
     [("checksum gate", "self_update::execute, checksum_for_asset, compute_sha256"),
      ("configured checksum", "BinaryArchiveBuildSystem::install_archive, verify_sha256")],
     ESP, NOTE)

prop("P27", "An interrupted caching or removal never leaves a partial package visible",
     "At whatever point caching a payload is interrupted, the partial payload is never reported as found: the in-progress marker exists from "
     "before the first file of the entry until the payload was copied completely, and a lookup or listing reports an entry as found only when "
     "the marker is absent and the payload is present. Removing a package from a repository hides it with its ignore marker before the first "
     "file is deleted and removes the marker only after the deletion succeeded.",
     ["crash_points", "fault_sequences", "schedules"], "a crash or failure between any two file-system steps, and any concurrent lookup",
     "Tests do not crash between the steps; the order of effects on every path decides it.",
     ["crates/rez-next-package/src/package_cache.rs", "crates/rez-next-repository/src/package_repository/filesystem.rs"],
     [("copying marker", "PackageCache::add_variant and the lookup and listing functions"),
      ("ignore marker", "FilesystemPackageRepository::remove_package")],
     ESP, NOTE)

prop("P07", "A release goes ahead only when every gate passed",
     "rez release and the release manager tag, publish or install a version only after every gate that is not switched off was passed: the "
     "working tree was queried and found clean, the tag was queried and found free, the package was valid, the build and every test command "
     "succeeded. A gate whose query fails counts as not passed. The version-control back ends (git, Mercurial, Subversion) answer 'clean' or "
     "'tag is free' only on the strength of a query that succeeded and whose whole output says so.",
     ["inputs", "fault_sequences", "configurations"], "all repository states, option combinations, and failures of the commands run",
     "Each gate multiplies with each failure of the others; tests run with a healthy repository.",
     ["src/cli/commands/release.rs", "crates/rez-next-build/src/release.rs", "crates/rez-next-build/src/vcs/git.rs",
      "crates/rez-next-build/src/vcs/hg.rs", "crates/rez-next-build/src/vcs/svn.rs"],
     [("gates", "release::execute, ReleaseManager::release"), ("repository state", "ReleaseVCS::is_clean, validate_repo_state, tag_exists")],
     ESP, NOTE)

prop("P08", "A failed external command or download is never reported as success",
     "If a command that an operation runs (compiler, build script, package installer, version control, shell, archive tool) cannot be started, "
     "exits with a non-zero code or is ended by a signal, or a server answers a download with an error status, the operation reports failure or "
     "hands the exit code on: an error, an unsuccessful result, a non-zero exit code. Only optional steps and queries documented as such are excepted.",
     ["fault_sequences"], "a failure of any command or download at any of its call sites",
     "Tests cannot make each of about a hundred commands fail in each of the three ways.",
     ["src/cli/commands", "crates/rez-next-build/src", "crates/rez-next-context/src/shell.rs", "crates/rez-next-context/src/execution.rs",
      "crates/rez-next-bind/src", "crates/rez-next-python/src"],
     [("exit status propagation", "every function that runs a command or calls one that does"),
      ("optional commands", "crates/rez-next-build/src/systems/cmd_builder.rs run_cmd")],
     ESP, NOTE)

prop("P14", "A started process sees exactly the environment that was asked for",
     "Every process that the shell executor or the context executor starts sees all variables of the configured environment, none left out "
     "or altered; the variables of the calling process are visible to it exactly when inheriting the parent environment is switched on, however "
     "the executor was built and whatever the environment contains (also when it is empty). Isolated builds likewise start their commands "
     "in a cleared environment.",
     ["inputs", "configurations"], "all environments, inherit settings and ways to build an executor",
     "Leaks and dropped variables depend on the combination of setting, environment and start function; tests look at one variable of one start.",
     ["crates/rez-next-context/src/shell.rs", "crates/rez-next-context/src/execution.rs", "crates/rez-next-build/src/systems"],
     [("environment set-up", "ShellExecutor::execute*, ContextExecutor"), ("inherit flag", "ExecutionConfig::inherit_parent_env")],
     ESP, NOTE)

prop("P24", "A build succeeds only when every step did",
     "A build runs its steps in order (configure, compile, test, package, install, the package's own tests) and starts a step only after every "
     "earlier one succeeded; when a step fails or errs, no later step runs and the build ends as failed. It ends as successful only when all steps "
     "succeeded (tests may be switched off), and a build that was cancelled never ends as successful. Waiting for a build reports success exactly "
     "when it ended as successful, and a command or API that waits for several builds (one per variant) reports success only when all of them did.",
     ["fault_sequences", "schedules", "configurations"], "all outcomes of all steps, cancellation at any time, all build options",
     "Tests run the fault-free build; each step can fail in several ways and cancellation races with the build task.",
     ["crates/rez-next-build/src/process.rs", "crates/rez-next-build/src/builder.rs", "src/cli/commands/build.rs", "src/cli/commands/release.rs",
      "crates/rez-next-python/src/build_functions.rs"],
     [("step driver", "BuildProcess::start, run_build_steps, execute_*_step"), ("status", "BuildProcess::wait, cancel, get_status, BuildManager")],
     ESP, NOTE)

prop("P10", "A command line runs the command it names and its exit status tells the outcome",
     "Every subcommand runs exactly its own command, once, with the arguments given to it. When the command line cannot be parsed or the command "
     "fails, the program exits with a non-zero status; when it succeeds (or help or the version was asked for), with zero. A failure that an operation of the libraries "
     "reports to a command is the command's failure, except where the command documents that it goes on (self test, bundle without a resolve, listings).",
     ["inputs", "fault_sequences", "programs"], "all command lines, all outcomes of all commands and of all library operations they call",
     "Tests run a few command lines to success; the loss of a failure shows only when that command fails in that way.",
     ["src/bin", "src/cli/mod.rs", "src/cli/commands"],
     [("entry points", "main of rez and rez-next, RezCli::run"), ("dispatch", "RezCli::execute_command"), ("handlers", "cli::commands::*::execute")],
     ESP, NOTE)

prop("P19", "A request that is malformed or cannot be met never counts as resolved",
     "When a requirement of a request (or of a package the solver looks at) cannot be parsed, when the resolve fails, or when it leaves "
     "requirements unmet although the caller did not choose that, every command and API reports failure: an error, an unsuccessful result, a context "
     "that is not resolved, a non-zero exit; no command is started in such an environment and a malformed requirement is never dropped or turned into "
     "a weaker one. Bundles of an unresolvable request and the listing functions that take free text are excepted.",
     ["inputs", "configurations"], "all requests, package definitions and repository contents, every command and binding that resolves",
     "Each of about fifty parse and resolve sites would have to be fed a failing request; the tests resolve what exists.",
     ["src/cli/commands/env.rs", "src/cli/commands/build.rs", "src/cli/commands/solve.rs", "src/cli/commands/test.rs", "src/cli/commands/context.rs",
      "crates/rez-next-solver/src", "crates/rez-next-python/src/context_bindings.rs", "crates/rez-next-python/src/env_bindings.rs"],
     [("request parsing", "PackageRequirement::parse, Requirement::from_str call sites"), ("resolve", "DependencyResolver::resolve call sites"),
      ("result flags", "PyRezEnv.success, ContextStatus")],
     ESP, NOTE)

prop("P35", "The resolver loses no requirement and picks no package it has not checked",
     "While resolving, every requirement taken up ends as met by a chosen package (same name, version accepted or absent), as no longer asked for, as weak "
     "with its package absent, or is reported as failed; a failed requirement is forgotten only when it is no longer asked for or met. A package is "
     "chosen only if its version was accepted by the requirement and it is no pre-release (unless these are allowed), no conflict requirement excludes it and, "
     "in strict mode, every active requirement of its name accepts it, also when backtracking. The requirements of a chosen package are all taken up, "
     "as dependency or as conflict. In strict mode success means that nothing failed; a dependency cycle is always an error.",
     ["inputs", "configurations", "histories"], "all repositories, requests and solver settings; every order of choices and backtracking steps",
     "The state of a solve has no bound; tests solve a few dozen small repositories.",
     ["crates/rez-next-solver/src/dependency_resolver.rs", "crates/rez-next-solver/src/resolution_state.rs"],
     [("queue", "resolve_recursive, get_next_requirement"), ("choice", "filter_and_sort_candidates, check_conflicts, backtrack_package, add_resolved_package"),
      ("follow-up", "set_package_requirements"), ("result", "DependencyResolver::resolve")],
     ESP, NOTE)

prop("P11", "Concurrent operations never deadlock on locks",
     "However the tasks and threads that use caches, repositories, builds, hooks and monitors interleave, none waits forever for a lock: no operation "
     "waits for a lock that it holds itself, locks that are held together are taken in one order everywhere, and no blocking guard (standard mutex or "
     "read-write lock, shard of a concurrent map) is held while an asynchronous operation is suspended.",
     ["schedules"], "all interleavings of all operations that take locks",
     "A deadlock needs one particular interleaving of two operations; tests run operations one after another.",
     ["crates/rez-next-repository/src/cache.rs", "crates/rez-next-repository/src/filesystem.rs", "crates/rez-next-cache/src", "crates/rez-next-build/src/process.rs",
      "crates/rez-next-package-cache/src/lib.rs", "crates/rez-next-release-hook/src/registry.rs", "crates/rez-next-repository/src/scanner"],
     [("locks", "every Mutex, RwLock and DashMap field of the workspace"), ("order", "functions that hold one lock while taking another")],
     "static analysis: guard-liveness dataflow over the MIR with interprocedural lock-order graph", NOTE)

prop("P13", "Values in generated shell scripts stay inside their quotes",
     "In every script or shell line that is generated for bash, zsh, fish or PowerShell (activation scripts, environment scripts of contexts, builds and "
     "the solver, rez env and rez context output), the value of a variable, the command of an alias, the path of a sourced script and the text of a comment "
     "cannot end the quotes or the comment they stand in, whatever characters they contain; outside of rex activation scripts they are not expanded by "
     "the shell either.",
     ["inputs"], "all values of variables, aliases, paths and messages",
     "Tests try one or two characters on one generator; every special character counts in each of about thirty places.",
     ["crates/rez-next-rex/src/shell.rs", "crates/rez-next-context/src/environment.rs", "crates/rez-next-build/src/environment.rs",
      "crates/rez-next-solver/src/resolution.rs", "crates/rez-next-common/src/shell_escape.rs", "src/cli/commands/context.rs", "src/cli/commands/env.rs"],
     [("escaping", "escape_bash_value, escape_fish_value, escape_powershell_value, shell_escape"), ("templates", "generate_*_script, to_shell_script, interpret_context, print_environment")],
     "static analysis: conditional constant propagation of character images over the MIR, split by the shells' quoting rules", NOTE)

NAV = ("decided by the values of version tokens and bounds at run time (arithmetic and string comparison over unbounded data); no sound "
       "static argument in reach bounds them, and case-splitting on sampled values would be a test in disguise")

prop("P40", "Versions are totally ordered",
     "Comparing versions is reflexive, antisymmetric and transitive, equal versions hash alike, and comparing agrees with rez's token order, for "
     "all version strings.",
     ["inputs"], "all pairs and triples of version strings", "A test compares a handful of versions; order laws are about all triples.",
     ["crates/rez-next-version/src/version.rs"], [("cmp", "crates/rez-next-version/src/version.rs Ord for Version")],
     None, NAV)

prop("P41", "Range operations agree with membership",
     "A version is in the union, intersection, complement or difference of ranges exactly when membership in the operands says so, and printing and "
     "parsing a range keeps its members, for all ranges and versions.",
     ["inputs"], "all ranges and versions", "The algebra is over unbounded sets of bounds.",
     ["crates/rez-next-version/src/range"], [("range algebra", "crates/rez-next-version/src/range")],
     None, NAV)

prop("P42", "The resolver finds a solution whenever one exists, and the best one",
     "If some choice of packages meets a request the resolver finds one, choosing the latest (or earliest) versions as configured.",
     ["inputs"], "all repositories and requests", "Completeness is about all package universes.",
     ["crates/rez-next-solver/src/dependency_resolver.rs"], [("search", "crates/rez-next-solver/src/dependency_resolver.rs")],
     None, "completeness of a backtracking search depends on the package data; the soundness half is claimed as P35, the other half has no static argument in reach")

prop("P43", "Every string survives being printed and parsed again",
     "A string held by a context, package or configuration (quotes, newlines, any Unicode) is the same after it was printed as YAML, JSON, TOML, XML or "
     "package.py and parsed again.",
     ["inputs"], "all strings", "A test round-trips a few strings.",
     ["crates/rez-next-context/src/serialization.rs", "crates/rez-next-package/src/serialization"],
     [("printing and parsing", "crates/rez-next-context/src/serialization.rs, crates/rez-next-package/src/serialization")],
     None, "equality of parsed text with the value it was printed from is a property of third-party (de)serialisers and hand-written parsers on unbounded strings; "
     "no static argument in reach relates the two. That every part is written, recognised and put back where it came from is claimed as P31")

prop("P31", "What is saved can be loaded again, and every part of it comes back",
     "For every type that is both saved and loaded (packages, resolved contexts, suites, requirements, configurations, cache entries and metadata, "
     "filters, ranges, ...): each of its fields is written, under a key the loader recognises, and the value comes back in the field it came from; a key "
     "that may be left out when saving may be absent when loading; each variant of an enumeration comes back as that variant; and what was saved "
     "can be loaded. Loading a package.yaml or package.json puts the value of every attribute a package is saved with into the attribute of that name, or fails; "
     "a package saved with metadata can be loaded; the package.py form writes every attribute that its reader stores. Excepted: caches and handles (sha1_cache, "
     "event_sender), a package's config, filepath, includes and commands_function, and the simplified XML form.",
     ["inputs", "histories"], "all values of some hundred saved types; every field and variant",
     "A test round-trips a few values with a few fields set; a field that is forgotten, swapped or renamed on one side shows only when that field matters.",
     ["crates/rez-next-package/src/package/serialize.rs", "crates/rez-next-package/src/serialization", "crates/rez-next-suites/src/suite.rs",
      "crates/rez-next-context/src/resolved_context.rs", "crates/rez-next-version/src/range"],
     [("save and load", "every pair of Serialize and Deserialize implementations, hand-written or derived; PackageLoader; PackageSaver; Suite::save and load")],
     "static analysis: record-shape agreement by abstract interpretation of both implementations over the type-checked program's MIR, the loader on exactly the record the saver writes", NOTE)

prop("P22", "What a package.py says and the reader does not understand is an error",
     "A package.py is read whole or not at all: a statement, function, command, expression, operator, name or argument form the reader does not "
     "know, and a value of another kind than the attribute or operation takes, makes reading fail with an error; none is skipped, replaced by a "
     "default or taken for a similar one. Every attribute the reader knows is stored under its own name and arrives in the package. "
     "Imports, pass, docstrings, unknown attributes and surplus positional arguments are excepted.",
     ["programs", "inputs"], "all package.py files, whatever Python they contain",
     "Tests read a few files; a construct that is silently left out yields a package with other requirements or another environment.",
     ["crates/rez-next-package/src/python_ast_parser"],
     [("package.py reader", "every function of crates/rez-next-package/src/python_ast_parser")],
     "static analysis: obligation tracking (linear-use typestate on syntax-tree nodes) by path-sensitive abstract interpretation over the type-checked program's MIR",
     NOTE)

prop("P44", "package.py definitions are read as Python would evaluate them",
     "Reading a package.py yields the attribute values that executing it in Python would give, or an error.",
     ["programs"], "all package.py files", "The input is a program.",
     ["crates/rez-next-package/src/python_ast_parser"], [("AST reader", "crates/rez-next-package/src/python_ast_parser")],
     None, "needs the semantics of Python as the oracle; equality of two interpreters on all programs is beyond a static rule over this code")

prop("P45", "Resolving, scanning and caching stay within their performance claims",
     "Caches bound their memory, and scans and resolves stay within the advertised times.",
     ["inputs", "schedules"], "all repositories and loads", "Performance claims are about all loads.",
     ["crates/rez-next-cache/src", "crates/rez-next-repository/src"], [("caches", "crates/rez-next-cache/src")],
     None, "run-time quantities (bytes, milliseconds) that no static argument in reach bounds")

prop("P20", "A file that cannot be read or parsed never counts as empty or default",
     "When a file that an operation is given or has to use (package definition, context, suite, hook or tool configuration, requirements or message "
     "file, archive metadata) cannot be read, is malformed or holds a malformed version, the operation fails with an error or an unsuccessful "
     "result; it never goes on as if the file were empty, absent or default. Directory scans and listings, package look-ups over several places, the search for "
     "the default configuration, metadata of cached payloads and system probes are excepted.",
     ["fault_sequences", "inputs"], "a failure at any read or parse of any operation, whatever the content of the file",
     "Tests feed a few malformed files to a few loaders; the guarantee is about each of some two hundred fallible reads.",
     ["crates/rez-next-package/src/serialization", "crates/rez-next-context/src/serialization.rs", "crates/rez-next-suites/src/suite.rs",
      "crates/rez-next-release-hook/src/builtin.rs", "crates/rez-next-config/src", "src/cli/commands"],
     [("error propagation", "every function that reads or parses a file or calls one that does")],
     "static analysis: modular fault propagation by path-sensitive abstract interpretation over the type-checked program's MIR", NOTE)
