#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that anchors and wording stay easy to review)."""
import json, pathlib, re

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    assert len(title) <= 80, title
    sentences = re.split(r"(?<=[.!?])\s+(?=[A-Z])", statement.strip())
    assert len(sentences) <= 3, (id, len(sentences), sentences)
    P.append({"id": id, "title": title, "statement": statement.strip(),
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})


A = "pkm/src/pkm/"
D = A + "api/distributions/"
K = A + "api/packages/"
E = A + "api/environments/"
R = A + "resolution/"
RP = A + "repositories/"
U = A + "utils/"
B = A + "build/"
C = "pkm-cli/src/pkm_cli/"
CO = "repositories/conda-pkm-repo/src/conda_pkm_repo/"

NOT_TESTED = "No stable test reaches this code: the 25 tests cover versions, specifiers, markers and the solver only; "

# ---------------------------------------------------------------- installation
prop("I01", "A wheel is verified against its RECORD before anything is installed",
     "Installing a wheel writes nothing into the target environment until the unpacked content has been checked against the wheel's own RECORD. "
     "A wheel without RECORD, with a file that RECORD does not list with a digest (other than RECORD itself), or with a file outside its metadata directory whose bytes do not match the digest RECORD states, is refused. "
     "No code path switches this verification off.",
     ["inputs", "programs"], "every wheel content, every path through the wheel installer and every caller of it",
     NOT_TESTED + "and a tampered file at an arbitrary position cannot be sampled.",
     [D + "wheel_distribution.py", D + "distinfo.py", U + "hashes.py"],
     [("verify before copy", D + "wheel_distribution.py WheelDistribution.install_to"),
      ("RECORD comparison", D + "distinfo.py / hashes.py HashSignature.validate_against")],
     observe=["files in site-packages after installing a tampered wheel"])

prop("I02", "Published artifact digests are checked before an artifact is used",
     "Whenever the source of a package publishes a digest for the archive that is downloaded (index page, index JSON, channel metadata or URL fragment), the archive is handed on for unpacking or building only after its bytes were found to have that digest; a mismatch raises. "
     "The digest is that of the complete file by the published function, and digests remembered for older bytes never vouch for newer ones. "
     "What an index publishes about an archive reaches the package unabridged.",
     ["inputs", "programs"], "every package kind that downloads an archive and every digest value",
     NOT_TESTED + "no test downloads anything.",
     [RP + "pypi_repository.py", RP + "simple_repository.py", K + "standard_package.py", RP + "url_repository.py", CO + "conda_channel_subdir.py", U + "hashes.py"],
     [("digest check after fetch", "the artifact retrieval method of each package class"),
      ("digest computation", U + "hashes.py HashSignature")])

prop("I03", "A failed install rolls the environment back",
     "When installing a wheel fails at any point after it began to change the environment, every file of the environment which the install replaced has its previous content again, every file or directory the install created is gone, and the failure is reported to the caller. "
     "On success nothing is rolled back.",
     ["fault_sequences", "crash_points"], "an exception raised at any call made while the installation is in progress",
     NOT_TESTED + "no test injects a failure between two copy steps.",
     [U + "files.py", D + "wheel_distribution.py"],
     [("CopyTransaction", U + "files.py"), ("install inside the transaction", D + "wheel_distribution.py")],
     observe=["site-packages tree before and after a failing install"])

prop("I04", "Everything an install creates is recorded for uninstall",
     "Every file that installing a wheel creates in the environment (copied content, scripts, launchers, compiled bytecode, metadata files) is named in the RECORD that the installation leaves behind, by its path relative to the site directory. "
     "The RECORD is written after the files it lists.",
     ["inputs", "programs"], "every wheel content and every step of the install procedure",
     NOT_TESTED + "no test installs a package.",
     [D + "wheel_distribution.py", D + "distinfo.py", RP + "shared_pacakges_repo.py", E + "package_containers.py"],
     [("RECORD construction", D + "distinfo.py RecordsFileConfiguration"), ("tracking", U + "files.py CopyTransaction")])

prop("I05", "Uninstall deletes only files the package owns",
     "Besides its own metadata directory, uninstalling a package deletes only files that its own RECORD lists (the listed file itself, not what it may link to) and bytecode caches beside them. "
     "Directories are removed only when they are empty and lie strictly inside the site directory of the package. "
     "Containment of one path in another is decided per path component, never by comparing path text.",
     ["inputs"], "every RECORD content, including absolute and parent-relative paths",
     NOT_TESTED + "hostile or unusual RECORD rows are not sampled.",
     [K + "site_packages.py", U + "files.py", E + "environment.py"],
     [("owned files loop", K + "site_packages.py InstalledPackage.uninstall"), ("path containment", U + "files.py is_relative_to")])

prop("I06", "An installation plan is executed completely and reloads the site",
     "Executing an installation plan performs, for each planned package, exactly the action its planned operation names and nothing for packages planned to be skipped. "
     "A package is planned to be skipped only when the same version is already installed and to be removed only when it is installed and not part of the plan. "
     "The call returns only after every started task has finished, an error in any task is raised to the caller, and the site's view of its installed packages is reloaded however the execution ends.",
     ["schedules", "fault_sequences"], "every plan, every interleaving of the parallel tasks and every failing task",
     NOT_TESTED + "no test executes a plan.",
     [K + "package_installation.py", U + "promises.py"],
     [("plan execution", K + "package_installation.py PackageOperation / InstallationPlan.execute"), ("joining", U + "promises.py await_all_promises_or_cancel")])

prop("I07", "Uninstall removes a dependency only when nothing else needs it",
     "A package that was not named for removal is removed only if the user did not request it and no package that remains needs it, directly or transitively: what is kept is resolved among all installed packages from the requests of every package the user asked for except the named ones, and everything that resolution returns is kept. "
     "A package named for removal that remaining packages still need is kept, merely loses its user-request mark and is not reported as removed; no other package loses its mark.",
     ["inputs", "histories"], "every installed dependency graph and every set of packages to remove",
     NOT_TESTED + "dependency graphs are unbounded.",
     [K + "package_installation.py", K + "site_packages.py"],
     [("uninstall", K + "package_installation.py PackageInstallationTarget.uninstall"), ("what may be kept", K + "package_installation.py _RemovalRepository")])

prop("I08", "Shared packages are removed only when no environment links to them",
     "Pruning the shared package store of an environment zoo deletes a stored package only if no installed package of any environment of the zoo, the packages inside its package containers included, links to it, by whatever path the zoo is reached; nothing is deleted before all links were seen. "
     "Linking a stored package into an environment always leaves the mark by which pruning recognises the link, and records no file of the store as a file of the environment.",
     ["histories", "inputs"], "every set of environments, containers and stored packages of a zoo",
     NOT_TESTED + "the tests never share packages.", [RP + "shared_pacakges_repo.py", "pkm/src/pkm/api/environments/environments_zoo.py"],
     [("prune", RP + "shared_pacakges_repo.py SharedPackagesRepository.remove_unused_packages"), ("link", RP + "shared_pacakges_repo.py _link_shared"),
      ("environments of a zoo", "pkm/src/pkm/api/environments/environments_zoo.py EnvironmentsZoo.list / clean_unused_shared")])

prop("I09", "Uninstall leaves no recorded file behind",
     "When uninstalling an installed package returns, every file listed in the package's RECORD has been removed (the file or symbolic link the entry names, whatever it leads to and wherever below the environment it lies), and a file that was already missing did not keep the others from being removed. "
     "The metadata directory of the package is deleted, after the RECORD was read, and the site forgets the package afterwards. "
     "Removing a container or force-removing a package does this for the package found.",
     ["inputs", "histories"], "every RECORD and every state of the recorded files", NOT_TESTED,
     ["pkm/src/pkm/api/packages/site_packages.py", "pkm/src/pkm/api/distributions/distinfo.py"],
     [("uninstall", "pkm/src/pkm/api/packages/site_packages.py InstalledPackage.uninstall"), ("recorded files", "pkm/src/pkm/api/distributions/distinfo.py DistInfo.installed_files")],
     observe=["the content of the environment after an uninstall"])

prop("I11", "Installing never drops what was installed or requested before",
     "When an installation is planned, the requirements given to the resolver are the new ones together with the request of every installed package that the user had asked for (a new requirement replaces the earlier request for the same package), or the new ones alone over a repository that answers for every installed package, other than those listed for update, with the installed package only. "
     "In the latter case every installed package that the resolution does not name, listed for update or not, is planned as it is, so that it is not removed. "
     "The requests recorded with the plan are all the earlier ones, together with the new requirements exactly when the user made them.",
     ["inputs", "histories"], "every set of installed packages, requests, new requirements, update lists and both values of user_requested", NOT_TESTED,
     ["pkm/src/pkm/api/packages/package_installation.py"],
     [("planning", "pkm/src/pkm/api/packages/package_installation.py PackageInstallationTarget.plan_installation"),
      ("fast path repository", "pkm/src/pkm/api/packages/package_installation.py _InstallationRepository.match")],
     observe=["the packages and user requests of an InstallationPlan"])

prop("I12", "Uninstalling keeps what other requested packages need and removes the rest",
     "Uninstalling resolves the requests of all packages the user asked for except those named (by normalized name), over a repository that offers every installed package and nothing else, with all their installed dependencies including those of extras. "
     "Exactly the result is planned and the plan is executed, so packages that nothing requested needs any more are removed. "
     "A named package that is kept loses its mark as requested, and the answer names exactly the named packages that were not kept.",
     ["inputs", "histories"], "every set of installed packages, requests and names to remove", NOT_TESTED,
     ["pkm/src/pkm/api/packages/package_installation.py"],
     [("uninstall", "pkm/src/pkm/api/packages/package_installation.py PackageInstallationTarget.uninstall"),
      ("removal repository", "pkm/src/pkm/api/packages/package_installation.py _RemovalRepository, _RemovalPackage")],
     observe=["the content of the site and the answer of uninstall"])

prop("I10", "Every file of a wheel arrives where its scheme says",
     "Installing a wheel copies every entry of its root, except RECORD, to the same place below the site directory its WHEEL file asks for, pure or platform specific, and every entry below .data to the directory of the target for that scheme, headers included; the script generated for every entry point of the console_scripts and gui_scripts groups goes to the scripts directory. "
     "A tree is copied whole: every file at every depth reaches the same relative place, unless the predicate given for the copy refuses it, and that predicate and the copy function apply at every depth. "
     "A copy that returns has written the source to the target, and a script that is given another interpreter keeps its body.",
     ["inputs"], "every layout and content of wheels", NOT_TESTED,
     ["pkm/src/pkm/api/distributions/wheel_distribution.py", "pkm/src/pkm/utils/files.py", "pkm/src/pkm/launchers/executables.py"],
     [("installer", "pkm/src/pkm/api/distributions/wheel_distribution.py WheelDistribution.install_extracted_wheel"),
      ("tree copy", "pkm/src/pkm/utils/files.py CopyTransaction.copy_tree, copy"),
      ("script copy", "pkm/src/pkm/launchers/executables.py Executables.patch_shabang_for_interpreter")],
     observe=["the files below the directories of an installation target after installing a wheel"])

# ---------------------------------------------------------------- resolution
prop("R01", "Every applicable requirement of a chosen version constrains the solution",
     "Every requirement of a version that applies in the target environment, with its marker and the extras asked for considered, constrains the solution when that version is chosen: it, or the override configured for its package, becomes a constraint of the solver together with all other requirements on the same package, before the version is decided on. "
     "No kind of package answers with fewer requirements than it has, or with those for another environment or other extras, and a constraint registered for a version stays in force when that version is tried again. "
     "Every package of the solution, other than the stand-ins for a package with extras, is part of the result.",
     ["inputs"], "every metadata content: repeated names, markers, extras",
     "The solver tests use at most one requirement per package and no markers.",
     [R + "pubgrub.py", R + "dependency_resolver.py", K + "standard_package.py", K + "package_metadata.py", A + "api/dependencies/dependency.py"],
     [("dependency collection", R + "dependency_resolver.py / pubgrub.py"), ("marker filtering", A + "api/dependencies/dependency.py")])

prop("R02", "Backtracking restores the whole solver state",
     "When the solver backtracks to an earlier decision level, each index of its partial solution keeps exactly the assignments, decisions and requirements made up to that level; a package stays required from the level at which it was required first. "
     "Nothing that was computed before a backtrack is assigned after it, and an assignment that is made only to try a version is taken back before anything else is done. "
     "The incompatibility learned from a conflict is registered, and registered incompatibilities are never removed.",
     ["inputs", "histories"], "every package universe and every conflict sequence",
     "The solver tests contain a handful of small conflicts.",
     [R + "pubgrub.py"], [("partial solution backtrack", R + "pubgrub.py")])

prop("R03", "Repositories never offer incompatible or unrequested pre-release packages",
     "A package returned for a requirement without a URL was looked up or built under the requested name and its version was tested against the requirement; one returned for a URL requirement was built from that URL; and each was found compatible with the given environment. "
     "Pre-releases are returned only when the requirement allows them or no other package matches. A package claims compatibility only on its Python requirement, its tags, or the package it stands for.",
     ["inputs", "configurations"], "every repository implementation and every set of published packages",
     "Only the pre-release filter is tested, with one sample list.",
     [A + "api/repositories/repository.py", RP],
     [("match template", A + "api/repositories/repository.py AbstractRepository.match")])

prop("R04", "The chosen artifact fits the target environment",
     "An artifact is retrieved or linked for an environment only if the Python requirement published for it admits the environment's interpreter version and, unless it is a source distribution, that environment supports one of its tags; if none qualifies, none is chosen. "
     "A tag is supported only if its ABI, platform and interpreter are those of the environment and it names no newer interpreter, C library or system version. "
     "Artifacts read from an index keep the Python requirement given there.",
     ["inputs", "configurations"], "every artifact list and every interpreter",
     NOT_TESTED, [K + "standard_package.py", RP + "pypi_repository.py", RP + "simple_repository.py", D + "wheel_distribution.py"],
     [("artifact choice", K + "standard_package.py")])

prop("R05", "Candidates are tried in their order of preference",
     "For a requirement without a URL every built-in package index returns its candidates newest first, or, where it wraps another repository, in that one's order with some put first; filtering and listing keep the order. "
     "A project's repository puts the version locked for the environment first, then those locked for other environments; planning over an installed package puts the installed version first. "
     "The solver gets all compatible versions in that order and, for the package it decides on, tries the first one that the constraints collected so far allow and whose requirements can be read.",
     ["inputs", "histories"], "every content of indexes, locks and environments", NOT_TESTED,
     ["pkm/src/pkm/api/repositories/repository.py", "pkm/src/pkm/resolution/packages_lock.py", "pkm/src/pkm/resolution/dependency_resolver.py", "pkm/src/pkm/resolution/pubgrub.py", "pkm/src/pkm/api/packages/package_installation.py"],
     [("indexes", "pkm/src/pkm/repositories/*.py _do_match, AbstractRepository.match, _sorted_by_version"),
      ("lock", "pkm/src/pkm/resolution/packages_lock.py LockPrioritizingRepository, PackagesLock.locked_versions"),
      ("solver", "pkm/src/pkm/resolution/pubgrub.py Solver.package_versions, _make_next_decision")],
     observe=["the order of the packages a repository returns and the versions that a resolution chooses"])

prop("R06", "Updating the lock preserves what other environments locked",
     "Updating a project's lock for an environment replaces only the versions that were locked for that environment (same markers hash): every version locked for another environment is carried over, whatever is installed. New entries are recorded under the hash of the environment that was asked for. Saving and grouping the lock drop no entry.",
     ["histories"], "every sequence of lock updates from different environments",
     NOT_TESTED, [R + "packages_lock.py"], [("lock update", R + "packages_lock.py PackagesLock.update_lock")])

prop("R07", "Dependency overrides apply on every planning path",
     "An operation that was given dependency overrides hands them on, on every path, to each planning or resolution step that can take them. "
     "The dependencies of an application configuration are installed with the overrides of that same configuration. "
     "The problem given to the solver uses a requirement's own specification only where it found no override for the requirement's package.",
     ["configurations", "inputs"], "every planning route (shortcut, full resolution) and every override table",
     NOT_TESTED, [K + "package_installation.py", R + "dependency_resolver.py", A + "api/environments/package_containers.py"],
     [("override application", R + "dependency_resolver.py"), ("planning", K + "package_installation.py")])

prop("R08", "Packages come from the repositories that the configuration names for them",
     "A package that a configuration binds to a repository, in whatever spelling of its name, is looked for in that repository only (one that is given unnamed belongs to that binding alone), and an error is raised if it is not defined. "
     "Any other package is looked for in the repositories of the configuration in their written order, except those reserved for bindings, and then in what the inheritance mode says: the context above, the global repositories or nothing; the first that has a match decides. "
     "Every repository and binding of a configuration counts, each repository under its own name; every configuration of a context's lookup chain is used, the nearest first; changing the bindings of some packages keeps the others.",
     ["configurations", "inputs"], "every repositories configuration, every requirement without a URL and every context", NOT_TESTED,
     ["pkm/src/pkm/api/repositories/repository_loader.py", "pkm/src/pkm/api/repositories/repository_management.py"],
     [("loading", "pkm/src/pkm/api/repositories/repository_loader.py RepositoryLoader.load, build"),
      ("search", "pkm/src/pkm/api/repositories/repository_loader.py _CompositeRepository"),
      ("contexts", "pkm/src/pkm/api/repositories/repository_management.py attached_repo, package_lookup_chain, register_bindings, remove_repository")],
     observe=["which repositories are asked for a package and which one's packages are returned"])

# ---------------------------------------------------------------- versions
prop("V01", "Objects that compare equal hash equal",
     "Any two values of the library's hashable types (versions, version specifiers, dependencies, package descriptors, cache keys, links) that compare equal have equal hashes, so that sets and dictionaries never hold two equal entries.",
     ["inputs"], "every pair of values of a type that defines equality and hashing",
     "Tests compare a few literal versions and never put equal but differently written values into a set.",
     [A + "api/versions/version.py", A + "api/versions/version_specifiers.py"],
     [("equality and hash methods", "all classes under pkm and pkm-cli")])

prop("V02", "Version set operations leave their operands unchanged",
     "Intersecting, uniting, inverting or comparing version specifiers never modifies either operand, so a specifier keeps its meaning however often it is used. ",
     ["inputs", "histories"], "every sequence of set operations on shared specifier objects",
     "Tests check the result of an operation, not its operands afterwards.",
     [A + "api/versions/version_specifiers.py", A + "api/versions/version.py"],
     [("set operations", A + "api/versions/version_specifiers.py")])

prop("V04", "Package names are always compared in normalized form",
     "Two spellings of a package name that differ only in letter case or in the characters (-, _ or .) that separate its words have the same normalized key, and package descriptors and the solver's packages compare by it. "
     "In the pkm library and command, every comparison and lookup by package name that decides what is installed, updated, removed, kept, locked, overridden, bound to a repository or found in one is between normalized names, so that another spelling is never taken for another package.",
     ["inputs"], "every spelling (case, dash, underscore, dot) of every package name",
     NOT_TESTED, [K + "package.py", K + "package_installation.py", K + "site_packages.py", A + "api/dependencies/dependency.py", R + "packages_lock.py", R + "dependency_resolver.py"],
     [("name normalization", K + "package.py PackageDescriptor.package_name_key"), ("lookups", "all of pkm and pkm-cli")])

# ---------------------------------------------------------------- network
prop("N01", "The HTTP cache only ever holds complete, successful responses",
     "A downloaded resource counts as cached only after its whole body was received from a successful (200) response. A failed or interrupted download never leaves content behind that a later fetch accepts. "
     "A not-modified answer is accepted only while the content it refers to is still cached.",
     ["fault_sequences", "crash_points"], "a failure at any point of a download and every status code",
     NOT_TESTED, [U + "http/http_client.py"], [("fetch", U + "http/http_client.py HttpClient.fetch_resource")])

prop("N02", "No fetch waits forever on another fetch of the same resource",
     "However a fetch of a resource ends (content, cached content, error or interruption), everybody waiting for the same resource is woken with a result or an error and a later fetch of the resource starts afresh.",
     ["schedules", "fault_sequences"], "every interleaving of concurrent fetches and every failure of the fetching thread",
     NOT_TESTED, [U + "http/http_client.py", U + "promises.py"], [("in-progress table", U + "http/http_client.py HttpClient.fetch_resource")])

prop("N03", "Publishing credentials stay with the index they were given for",
     "Credentials given for publishing (typed in, passed as arguments or read from the authentication store) are sent only in requests to the publish address that the repository is configured with, and such a request is never sent on to a redirect target. "
     "They are never printed, logged, put in an exception message, handed to another program, or put in the process environment or a global. "
     "Neither they nor the password of the authentication store are written to disk other than encrypted.",
     ["inputs", "fault_sequences"], "every server response (redirects to any address included), every stored credential, every failure of an upload",
     NOT_TESTED + "and no test publishes anything.", [U + "http/http_client.py", U + "http/auth.py", RP + "pypi_repository.py", C + "auth/publish_auth_store.py", C + "controllers/prj_controller.py"],
     [("no redirects when publishing", RP + "pypi_repository.py PyPiPublisher.publish"), ("redirect limit", U + "http/http_client.py HttpClient._request"), ("encrypted store", C + "auth/publish_auth_store.py PublishAuthenticationStore._save")],
     observe=["requests received by a redirect target", "standard output and error messages", "files below the pkm home"])

prop("N04", "Publishing sends each distribution whole and with its metadata, or fails",
     "Publishing a project hands every file of its distributions directory to the index together with the metadata of the project; each item of that metadata (each value, where there are several), the file itself under the name content, and digests computed over all of the file are fields of the form that is sent. "
     "The body of the form delimits every field by its boundary, holds the field's payload unchanged and complete (also when the request is sent again), and ends with the closing boundary. "
     "Publishing a distribution returns only after the index answered with a success status.",
     ["inputs", "fault_sequences"], "every project, distribution and answer of the index", NOT_TESTED,
     [RP + "pypi_repository.py", U + "http/mfd_payload.py", U + "io_streams.py", A + "api/projects/project.py"],
     [("publish", RP + "pypi_repository.py PyPiPublisher.publish"), ("form body", U + "http/mfd_payload.py MultipartFormDataPayload.__iter__"), ("what is published", A + "api/projects/project.py Project.publish")],
     observe=["the bytes a publish request sends to the index, parsed as a multipart form", "whether publish raises for each answer status"])

# ---------------------------------------------------------------- concurrency
prop("C01", "Every promise is eventually completed or failed",
     "Work handed to a thread pool, to the process pool or executed directly through a promise always ends by completing or failing that promise, whatever the work raises, and no error of the work is turned into a result or lost. "
     "Completing or failing a promise stores the outcome once, wakes every waiter and runs every registered callback, so that nobody who awaits or chains on it is missed. "
     "Awaiting a promise returns only once it is done, with the stored result or by raising the stored error; awaiting several returns only after each of them, and raises the error of one that failed unless told to ignore errors.",
     ["schedules", "fault_sequences"], "every exception the work can raise and every interleaving",
     NOT_TESTED, [U + "promises.py", U + "multiproc/__init__.py"], [("promise execution", U + "promises.py")])

prop("C02", "Shared state is only touched under its lock",
     "State that threads share under a lock (pooled connections, the table of running fetches, the process pool's workers and its cancelled or attached tasks, promises, locks of cached properties, worker output streams, the live console display) is changed only while the lock that protects it is held, and tables that are changed in place are also read only under it. "
     "A decision about such a table and the change it leads to are made in one critical section, a cached property is computed only after testing under the object's lock that it is missing, and streams shared by several writers are protected by one lock. "
     "Every lock is released however the protected code ends.",
     ["schedules"], "every interleaving of threads",
     NOT_TESTED, [U + "http/http_client.py", U + "promises.py", U + "multiproc/__init__.py", U + "properties.py"],
     [("locks", "with-blocks around the shared tables")])

prop("C03", "Objects sent to worker processes arrive with the same content",
     "For every class that customises how it is serialized, an object restored from the state the class writes has, in every field that its constructor sets, the value the original had; what a class without a constructor writes is all restored. Hooks belong to the class, in pairs, not to single objects.",
     ["inputs"], "every object that customises its serialization",
     NOT_TESTED, [U + "ipc.py", A + "api/versions/version.py"], [("state codecs", "__getstate__/__setstate__ pairs")])

prop("C04", "Pooled HTTP connections are always given back, and given back clean",
     "A pooled connection taken for an HTTP request is, however the request ends (an error in the code that uses the response included), given back to its pool or closed, and the request does not use it afterwards. It is given back open only when no request was sent on it or the last response on it was read to its end. A response is handed to its user once, and an error of that user is passed on, never taken for a failed connection or swallowed.",
     ["fault_sequences", "schedules"], "every exception at every step of a request, redirects and retries",
     NOT_TESTED, [U + "http/http_client.py"], [("pools", U + "http/http_client.py")])

# ---------------------------------------------------------------- environment, processes, files
prop("E01", "Temporarily changed process environment is always restored",
     "Code that changes environment variables, the import path or the working directory for a limited scope restores the previous values on every way out of that scope, including variables that were unset before.",
     ["fault_sequences", "inputs"], "every exception raised in the scope and every prior environment",
     NOT_TESTED, [E + "environment.py", E + "environments_zoo.py", C + "api/tasks/tasks_runner.py"],
     [("activation context managers", E + "environment.py / environments_zoo.py")])

prop("E02", "Temporary directories are removed on every exit",
     "Every temporary directory or file the library creates is removed on every way out of the operation that created it.",
     ["fault_sequences"], "every exception raised while the temporary directory exists",
     NOT_TESTED, [U + "files.py"], [("temp_dir", U + "files.py")])

prop("E03", "A failing external program is never treated as success",
     "Whenever the library or its command line tool runs an external program to completion, a non-zero exit status makes the operation fail or is handed to the caller; it is never ignored. "
     "Skipping a candidate whose probe failed while searching (for example a broken interpreter) counts as noticing it.",
     ["fault_sequences"], "every external program invocation and exit status",
     NOT_TESTED, [U + "processes.py", E + "environment.py", B, RP + "git_repository.py"], [("process execution", U + "processes.py")])

prop("E04", "Text from files, users or the network is never evaluated as code",
     "Requirement markers, command lines, configuration, metadata and downloaded content are interpreted only as data: no such text, unless quoted as a literal, reaches eval, exec, compile, an unpickler or a command shell. "
     "Code that is meant to be code (a project's own tasks and build backend, generated launcher scripts) is not covered.",
     ["inputs"], "every input text",
     "Tests evaluate a few benign markers.", [A + "api/dependencies/env_markers.py", U + "processes.py"],
     [("marker parser", A + "api/dependencies/env_markers.py"), ("command splitting", U + "processes.py")])

prop("E05", "Downloaded names never lead outside the directory meant for them",
     "Archive member names, file lists inside packages, entry point names and URLs are never able to make the library write or delete outside the directory it unpacks, installs, caches or clones into: such a name is confined before a path built from it is used. Tar archives, whose links could redirect later members, are only unpacked under the standard library's 'data' filter.",
     ["inputs"], "every archive, entry point name and url", NOT_TESTED, [U + "archives.py", CO + "conda_distribution.py", "pkm/src/pkm/launchers/executables.py", U + "http/http_client.py", RP + "git_repository.py"],
     [("extraction", U + "archives.py"), ("executables", "pkm/src/pkm/launchers/executables.py"), ("http cache paths", U + "http/http_client.py")])

prop("E06", "Recursive deletion only hits directories the library owns",
     "A directory tree is deleted recursively only when the same operation created it as a temporary directory, when it lies in the library's own storage (its caches and workspaces below the pkm home), has a name the library reserves for itself, is empty, or was positively identified as an environment or as the metadata directory of an installed package. "
     "A name, url or version that comes from outside is normalised or checked not to leave its parent directory before it selects a tree to delete.",
     ["inputs", "configurations"], "every configured path, every name and every version that reaches a deletion",
     NOT_TESTED + "and the damage shows only for the path nobody expected.",
     [E + "environments_zoo.py", A + "api/projects/project.py", A + "api/pkm.py", B + "source_build_cache.py", RP + "git_repository.py", K + "site_packages.py"],
     [("deletion sites", "all rmtree calls"), ("storage roots", A + "api/pkm.py Pkm.home"), ("identification", E + "environment.py Environment.is_venv_path")],
     observe=["which directory trees are gone after cleaning, uninstalling, deleting an environment or a failed clone"])

# ---------------------------------------------------------------- build
prop("B01", "Built archives are complete and wheels are signed last",
     "When pkm assembles a wheel from a project, everything below the build directory was recorded in the RECORD (each file under its path, with a hash of that file) and the RECORD was saved before; nothing changes between signing and assembling; nothing below the build directory is left out of the archive. "
     "Every package directory of the project is copied into the build, or linked in an editable build, or the build fails. A source distribution holds everything that was prepared for it, including the packages, PKG-INFO and pyproject.toml.",
     ["inputs", "programs"], "every project layout", NOT_TESTED, [B + "pkm_builders.py", A + "api/distributions/distinfo.py"],
     [("wheel build", B + "pkm_builders.py build_wheel"), ("source build", B + "pkm_builders.py build_sdist"), ("signing", A + "api/distributions/distinfo.py RecordsFileConfiguration.sign_files")],
     observe=["the members of a built wheel or source distribution", "the RECORD of a built wheel against the content of its members"])

prop("B02", "Built metadata says what the project configuration says",
     "Name, version, summary, description, Python requirement, license, keywords, classifiers, dependencies, extras, authors, maintainers (names and e-mails) and URLs in the metadata of a built distribution are each computed from the project configuration item of that name and from nothing else, and a list is taken over whole. "
     "The published requirements are all dependencies and all optional dependencies, the latter restricted to their own marker and to their extra (unless their marker already names that extra); the entry points of all groups, scripts and GUI scripts are published under their own group and name with their own reference. "
     "A build that produces metadata has written METADATA and entry_points.txt with these items, each on one line (neither folded nor encoded).",
     ["inputs", "configurations"], "every project configuration", NOT_TESTED,
     [A + "api/projects/pyproject_configuration.py", K + "package_metadata.py", A + "api/distributions/distinfo.py", B + "pkm_builders.py"],
     [("metadata mapping", K + "package_metadata.py PackageMetadata.from_project_config"), ("requirements", A + "api/projects/pyproject_configuration.py ProjectConfig.all_dependencies"),
      ("entry points", A + "api/projects/pyproject_configuration.py ProjectConfig.all_entrypoints"), ("writing", B + "pkm_builders.py _BuildContext.build_dist_info")],
     observe=["METADATA and entry_points.txt of a built wheel"])

prop("B03", "Build cycles are detected and build markers are cleared on every exit",
     "While the wheel of a source project is being built through an external backend the build is marked as in progress for everything the build needs built, a nested request for the same build is reported as a cycle, and the mark is removed however the build ends.",
     ["fault_sequences", "histories"], "every build outcome and every nesting of builds", NOT_TESTED,
     [B + "external_builders.py"], [("build path", B + "external_builders.py")])

# ---------------------------------------------------------------- configuration / cli
prop("F01", "Saving a configuration file preserves what pkm does not know about",
     "Loading a configuration file that users edit (project, project group, repositories) and saving it keeps every key, also keys of known sections that pkm does not interpret, and merging them back never replaces a section pkm wrote. A declared field is skipped on save only if it is None. Every declared field has a type that can be read and written, and creating the object from a file does not rewrite its fields.",
     ["inputs"], "every configuration content", NOT_TESTED, [A + "config/configclass.py", A + "config/configfiles.py"],
     [("leftovers", A + "config/configclass.py")])

prop("L01", "A failed project install leaves the project configuration untouched",
     "When adding or removing project dependencies fails before the files are written, neither the project file nor its lock file is rewritten: both are saved only after every other step has succeeded. On every failure the in-memory dependency lists of the project are what they were before. No value computed from those lists is cached across operations.",
     ["fault_sequences"], "a failure at any step of the install", NOT_TESTED, [C + "controllers/prj_controller.py"],
     [("install_dependencies", C + "controllers/prj_controller.py")])

prop("P01", "Parsing ends for every text",
     "Reading a TOML file, a requirement, an environment marker, a version or version specifier, or a command line ends for every text: in every parser method each round of a loop takes at least one character of the text, leaves the loop or fails. No parser method reaches itself again before it has taken a character. What a round takes is judged by what the primitive operations of the parsers (match, next, until, ...) guarantee, at the end of the text too.",
     ["inputs"], "every text, of any length and nesting; the operations of the base parser class are taken at their word", NOT_TESTED,
     [A + "utils/parsers.py", A + "config/toml.py", A + "api/dependencies/dependency.py", A + "api/dependencies/env_markers.py", A + "api/versions/version_parser.py", A + "utils/processes.py"],
     [("read_non_data", A + "config/toml.py"), ("read_command", A + "utils/processes.py")])

prop("B04", "The source build cache returns complete builds of exactly this source",
     "What the source build cache reads or keeps lies under a path that depends on the package name, its version, the markers of the requesting environment and the content of the source archive, and what it builds is built from this archive, as this package, for this environment. A request for metadata is answered with package metadata and a request for a wheel with a wheel in the cache that was found or stored there, on every path, also when the build backend cannot build metadata alone. A file that comes from the build is never copied or written directly to a name under which the cache is read, so an interrupted write never counts as cached.",
     ["inputs", "crash_points"], "every source distribution, environment and history of the cache; builds of the same package by two processes at once are not covered", NOT_TESTED,
     [A + "build/source_build_cache.py"],
     [("_get_or_build", A + "build/source_build_cache.py")])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
