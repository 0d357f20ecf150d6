#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: which property is decided by which analysis"""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]

# id -> (technique, what level "other" means here)
CHECKS = {
 "I01": ("path sensitive interprocedural data flow over the syntax tree (must-precede, one arbitrary wheel file tracked)",
         "every path from every wheel installer entry to a write into the target is followed; loops are run to a fixpoint for one arbitrary file"),
 "I03": ("typestate and ownership analysis of the copy transaction plus path sensitive check of every target write",
         "all paths through the transaction's methods, its roll back and the wheel installer; file operations of the roll back itself are assumed to succeed"),
 "I04": ("path sensitive data flow from the transaction's paths to the signing of RECORD (one arbitrary path tracked)",
         "all paths through the wheel installer and the signing loop; a wheel file listed twice or links are not told apart from files"),
 "N01": ("path sensitive interprocedural data flow over the syntax tree (receive loop to cache marker)",
         "all paths through the http client and its cache records; the transport is assumed to signal the declared length"),
 "N02": ("typestate analysis of the registered fetch over all exits, including interruptions",
         "all paths through every public operation of the http client"),
 "E01": ("path sensitive save and restore analysis per changed variable, over all exits of the scope",
         "all paths through every function that changes an environment mapping, the import path or the working directory; a restoring call itself is assumed to succeed"),
 "E02": ("resource typestate analysis of every creation of a temporary file or directory, over all exits",
         "all paths through every function that creates one; a removing call itself is assumed to succeed"),
 "B03": ("path sensitive typestate analysis of the build mark over all exits, including interruptions",
         "all paths through the external build entry; the nested build is followed through the inherited environment table"),
 "I06": ("path sensitive interprocedural analysis of one arbitrary planned package per operation, plus joining of one arbitrary task",
         "all paths through plan computation, execution and joining; the thread and process pools are assumed to run what they accept"),
 "C01": ("monitor verification of the promise class by path sensitive data flow, and typestate of work in hand over all exits",
         "all paths through the promise class, the pool's worker threads and the worker process; the standard thread pool and pickle are assumed to behave as documented"),
 "C02": ("lock set analysis over all functions (lexical lock regions plus locks held by all callers of a helper), with inferred protected state",
         "every access of state that some function changes under a lock; objects reached through containers or returned to callers are not tracked; "
         "single unlocked loads of references that are replaced, never changed in place, are allowed"),
 "E04": ("provenance analysis over the syntax tree: backward slice of the text given to every evaluator, shell and unpickler",
         "every such call of the library; text is traced through locals, parameters and returns, anything else counts as foreign"),
 "E03": ('path sensitive typestate analysis of every started program, followed into its failing outcome and through the callers it is handed to',
         'all paths through every function that starts a program; a probe of one of several candidates that fails may be skipped when it contributes nothing; long running pool workers belong to C01'),
 "E05": ('path sensitive taint analysis from downloaded names to written paths, with the confinement tests on the way as sanitizers',
         'all paths of every function that reads such a name, with path building helpers followed; host names and normalized package names are taken to be single path components; the zip extraction of the standard library is trusted'),
 "V01": ('relational path sensitive analysis: each path on which equality holds is followed through the hash of both objects, with congruence closure over the compared parts',
         'all paths of equality and hash of every library class that defines both; equality of the parts is taken to satisfy the property itself; normalization is understood for trailing zeros, defaults and collections, other canonical forms count as different'),
 "V02": ('interprocedural alias and mutation analysis of the operations (property simulation over the AST): every change of an object is traced to an operand, shared constant or operation result, or to an object made by the operation; plus a typed lint for changes made elsewhere',
         'every method of the version and specifier hierarchies is followed with symbolic operands, private helpers and constructors inlined; other public operations are opaque and their results count as operands'),
 "I05": ('path sensitive property simulation of every uninstall method over the AST: provenance of deleted paths (RECORD entry / metadata directory / bytecode cache) and containment facts established on the path; typed lint against text based containment',
         'all uninstall methods with the DistInfo accessors and file helpers inlined; RECORD is symbolic; ancestors of a path beyond the second are folded into one term'),
 "R04": ('value-flow analysis of one arbitrary artifact through selection and use; path conditions of the tag scorer',
         'One arbitrary element of each artifact list is followed through every method that gets an environment; retrieval, linking and being returned require the checked Python requirement and tags. Every path of the tag scorer that returns a score must have related ABI, platform, interpreter and version to the environment. Assumed: VersionSpecifier.allows_version is right (V-properties).'),
 "R03": ('path-sensitive abstract interpretation of the match template, every _do_match and every is_compatible_with, following one arbitrary returned package and the facts known about it',
         'the version tests themselves (allows_version, allows_pre_or_dev_releases), the marker and the HTTP payloads are taken as given; other packages of the planner (package_installation) are not offered by repositories and are excluded'),
 "C03": ('symbolic interpretation of __init__, __getstate__ and __setstate__ in sequence; field by field comparison of the original with the restored object',
         'compared are the fields that constructors set, per constructor path; an object reloaded from the configuration file it was read from counts as the same; classes with default pickling have no hooks to compare'),
 "I02": ('path-sensitive abstract interpretation of every function that fetches an archive (facts: digest compared, or none published where it would be), of the digest comparison and of the cache entry that remembers digests',
         'where digests are published is enumerated (URL fragments, digests/hashes maps, sha256/md5 keys of artifact records); hashlib and the HTTP payloads are taken as given'),
 "R06": ('element-completeness dataflow over the loops of PackagesLock',
         'one arbitrary lock followed through every loop; dropped only under the fact that its hash is the hash of the environment'),
 "L01": ('typestate of the project configuration (saved / failed / changed lists) with exception edges',
         'path sensitive; snapshots recognised structurally; cached values by a scan of cached properties'),
 "F01": ('dataflow over the configuration codec, type-level check of the declared fields',
         'codec paths enumerated; every configuration class and field checked against the codec table'),
 "E06": ('provenance dataflow: every path term that reaches a recursive deletion is traced to where it comes from (constructor arguments, storage attributes, callers), with the conditions on the path',
         'a parameter is judged at every caller up to three levels; names that select a tree must be constants, digests, normalised or checked'),
 "N03": ('interprocedural taint analysis of credentials (parameters, results, attributes and containers to a fixpoint), path-sensitive analysis of the redirect limit',
         'credentials: password prompts, authentication arguments of publishers, the authentication store; conversions (toml, base64) keep the taint, the cipher removes it'),
 "C04": ('typestate analysis (path-sensitive, exceptional paths included) of pooled connections over the functions that take one',
         'A connection is idle, busy (request sent) or gone; every function that takes one from the pool is interpreted over all its paths with every call able to raise and the yield able to raise the error of the user of the response; every exit must have given it back or closed it, open only when idle. The pool and its proxy are found by what they do and are checked path by path (kept once or closed; reference dropped).'),
 "R01": ('path-sensitive dataflow over the abstract interpreter: obligations per requirement (kept, combined, made an incompatibility, indexed, registered before the decision)',
         'Decides that no requirement is lost between dependencies(), the installation problem, the table of a version, the incompatibilities and the solution. The arithmetic of version ranges inside the terms is V01/V02; that the solver search itself is complete is not claimed.'),
 "R02": ('abstract interpretation of backtrack (one arbitrary entry of each index followed through it) and a typestate analysis of the solver methods (backtrack epochs, tried assignments, registered causes)',
         'Decides that undoing is exact and that nothing computed before a backtrack survives it. It does not decide which level a conflict backtracks to, nor that the search terminates.'),
 "R07": ('path-sensitive abstract interpretation of every function that takes or configures dependency overrides: each call that can take overrides must receive the given ones (or a container made of all of them); relation between the term of a requirement and the failed override lookup in the solver problem',
         'functions that take overrides are found by parameter name (override/overwrite) and by handing their parameter on to such a function'),
 "V04": ('whole-program value analysis (flow-sensitive in functions, fixpoint over variables, fields, parameters, results and containers) that tells package names as spelled, normalized keys and names given by callers apart at each comparison and lookup; character-class mapping of the normalizing function',
         'file paths and addresses made of a name are not comparisons; the conda and torch plug-in repositories, reports and an unused module are left out'),
 "I08": ("abstract interpretation of the pruning: every visit of environments, containers, sites and packages is followed to its end (each element must flow on or be found unlinked), deletions need the dominating fact 'not among the links', both sides' path forms are composed",
         'who links what is decided from the marks; the mark written by linking is matched with the mark read by pruning'),
 "I07": ('path-sensitive abstract interpretation of uninstall: one arbitrary installed package and one arbitrary named package are followed through every loop and collection up to the executed plan',
         'that a remaining package keeps its requirements in the resolution is R01, that the plan removes only what is not part of it is I06; forced removal is not covered'),
 "B01": ('path-sensitive typestate analysis of the builds (content in place, signed, saved, archived) with one arbitrary file and one arbitrary package directory followed through every loop',
         'what external build backends produce and the wheels of containerized applications are not covered'),
 "B02": ('path-sensitive value-flow analysis from configuration items to metadata items, requirements and entry points, with element completeness of every loop',
         'the texts of readme and license files, and how values are spelled, are not checked'),
 "I09": ('element-completeness dataflow from the RECORD to the removals (path-sensitive, through generators, helpers and intermediate lists), ordering of metadata removal and site reload',
         'directories that an uninstall leaves empty are not claimed'),
 "N04": ('abstract interpretation of publish (completeness of the fields, digests over all chunks, path facts about the answer status) and of the generator of the form body, whose yields are followed as a text grammar',
         'Field names the index expects are not judged, only that every metadata item is sent under its own name.'),
 "I11": ('path-sensitive content analysis of collections (records with conditions, completeness decided by resolution) from the installed packages and the new requirements to the resolver and the plan',
         'what the solver makes of its input is R01-R07; constraints of kept packages on packages that are updated in the fast path are not claimed'),
 "I12": ('path-sensitive content analysis of collections from the installed packages and the names to remove to the resolver, the plan, the request marks and the answer',
         'what a plan does when executed is I06/I09'),
 "I10": ('path-sensitive dataflow over the installer with the extracted wheel as a symbolic directory: every visited entry is tracked to a copy, destinations are derived from the copy target terms',
         'the listing of a directory is taken as complete; which files the predicate of a copy leaves out is read from the predicate itself'),
 "R05": ('abstract interpretation of list orders: every sort key is evaluated for an arbitrary candidate, the order of each list of candidates is followed from the index to the decision of the solver',
         'which packages an index holds and the comparison of versions (V02) are not part of it'),
 "R08": ('path-sensitive dataflow and obligation analysis (interprocedural symbolic walk over the AST)',
         'repositories and bindings of an arbitrary configuration must reach the composite; at every query of the composite the facts must show that the repository is the bound one, or that the package is unbound and the repository not reserved'),
 "P01": ('termination analysis: interprocedural summaries of what each parser method must have consumed, with a progress obligation on every loop back edge and every recursion',
         'the progress guarantees of the base parser operations (until, match, next, ...) are assumed, the loops over streams and sockets are not parsers and not covered'),
 "B04": ('path sensitive interprocedural dataflow from both cache entries: what a cache path depends on, where cached files come from, how they become visible, what is returned',
         'that build_wheel returns a directory for metadata and an archive otherwise is assumed, concurrent builds of one package are not covered'),
}
PENDING = "the analysis for this property is not built yet"
NOT_APPLICABLE = {
}


def main():
    ids = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
    checks = []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                           "technique": t, "level": "other", "level_note": n})
    na = [{"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)} for i in ids if i not in CHECKS]
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    (ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
    assert not set(CHECKS) - set(ids), set(CHECKS) - set(ids)


main()
