#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Unparsing any AST gives source that parses back to the same AST",
  "For every syntax tree that the running Python's own parser can produce, converting the tree back to source text and parsing that text yields a tree equal to the original (ignoring source locations and the spelling of literals), and the conversion never fails. Asking for syntax-highlighted output adds only ANSI colour codes: removing them gives exactly the plain output. Expander-internal AST markers are rendered visibly and never as valid code.",
  ["inputs", "programs"], "all ASTs reachable from ast.parse on the running Python (every node type, operator, nesting and literal value), both color settings",
  "The tests unparse a handful of hand-written snippets; the guarantee is over all trees (node type x parent slot x precedence x literal contents).",
  ["mcpyrate/unparser.py", "mcpyrate/astcompat.py", "mcpyrate/colorizer.py", "mcpyrate/ansi.py"],
  [("unparse", "mcpyrate/unparser.py:unparse"), ("Unparser methods per node type", "mcpyrate/unparser.py:Unparser"), ("colorize", "mcpyrate/colorizer.py:colorize")],
  observe=["return value of unparse()"])
p("C02", "Quasiquoted code evaluates to exactly the quoted AST",
  "Evaluating the run-time code that a quasiquote produces for a syntax tree gives a tree equal to the quoted one (same node types, same field values, recursively, with fresh nodes), for every tree. Each unquote inside it is replaced by the value, name, AST, AST list or copied node that its operator specifies, in the position where it appeared, and nested quote levels are tracked so that only unquotes at the matching level fire. Converting the quoted code back undoes the quoting.",
  ["inputs", "programs"], "all ASTs in the quoted position, all unquote operators and nesting depths",
  "Tests quote a few expressions; the claim is an inductive statement over all node types, field kinds and constants.",
  ["mcpyrate/quotes.py"],
  [("astify", "mcpyrate/quotes.py:astify"), ("unastify", "mcpyrate/quotes.py:unastify"), ("q/u/n/a/s/t macros and their run-time half", "mcpyrate/quotes.py")])
p("C03", "A hygienically captured value or macro is the one that is looked up later",
  "A value captured by a hygienic unquote is found again by the generated lookup code: as an equal value in this process or another one, and as the same object each time the same piece of code is run, whatever other captures and lookups happened before, in any order; separate captures do not share a mutable value. A captured macro is likewise re-bound to the same macro function under a fresh name that clashes with no existing binding, and captured values and macros are recognised as such by the detection helpers, which return the captured name.",
  ["histories", "inputs"], "all sequences of captures and lookups, all picklable and unpicklable values",
  "The tests perform single capture/lookup pairs; staleness, id reuse and cross-talk need histories.",
  ["mcpyrate/quotes.py"],
  [("capture_value/lookup_value", "mcpyrate/quotes.py"), ("capture_macro/lookup_macro", "mcpyrate/quotes.py"), ("is_captured_value/is_captured_macro", "mcpyrate/quotes.py")],
  state=[{"name": "_lookup_cache and global_bindings", "meaning": "per-process caches of captured values and of uniquely named captured macros"}])
p("C04", "Macros expand outermost-first, exactly once per invocation, in the asked mode",
  "Expansion applies macros outermost invocation first, in source order, and in recursive mode keeps expanding macro output until no invocation remains, while the once-only mode makes a single pass and protects its result from any later expansion. A subtree marked as done is never touched again by the expander. The mode in force before a once-only, recursive or debugging visit is in force again after it, however the visit ended.",
  ["programs", "histories", "fault_sequences"], "all nestings of macro invocations and of the visit entry points, with macros that return normally or raise",
  "Tests exercise fixed nestings; the claim covers every nesting, every mode stack and exceptional exits.",
  ["mcpyrate/core.py", "mcpyrate/expander.py"],
  [("visit, visit_once, visit_recursively, _recursive_mode, debughook", "mcpyrate/core.py:BaseMacroExpander"), ("expand/_visit_expansion", "mcpyrate/core.py:BaseMacroExpander")],
  state=[{"name": "recursive", "meaning": "the current recursion mode of an expander"}, {"name": "_debughook", "meaning": "currently installed debug hook"}])
p("C05", "Exactly the documented syntaxes invoke a bound macro, with the right inputs",
  "A name bound to a macro is invoked by exactly the documented expression, block, decorator and (only if so declared) identifier syntaxes, with macro arguments accepted only for macros declared parametric; anything else is left as ordinary code, unchanged. The macro receives the invocation's tree, arguments, as-part, syntax kind, expander and complete original invocation; several block macros in one header expand left to right, several decorator macros innermost first, and the remaining ones stay attached. The macro-usage collector reports exactly the invocations that the expander would find, and never fails on ordinary code.",
  ["programs", "inputs"], "all ASTs and all binding tables",
  "Tests use a few macro shapes; false positives and negatives of detection need all candidate shapes (names, subscripts, calls, nested combinations) x binding kinds.",
  ["mcpyrate/expander.py"],
  [("destructure_candidate", "mcpyrate/expander.py"), ("MacroExpander.visit_*", "mcpyrate/expander.py"), ("_detect_macro_items", "mcpyrate/expander.py"), ("MacroCollector", "mcpyrate/expander.py")])
p("C06", "Failing or misbehaving macros give one precise use-site error",
  "If a macro raises, or returns anything other than an AST node, an iterable of AST nodes or nothing, expansion stops with a macro application error that names the macro, the file and line of the use site and whose cause is the original exception; nested invocations are reported in one error, outermost first, keeping the innermost original cause. Valid outputs (a node, any iterable of nodes, nothing) are accepted and spliced: nothing in a statement slot removes the statement, and nothing in an expression slot becomes code evaluating to None.",
  ["fault_sequences", "inputs"], "all macro outputs, all exceptions, all nesting depths",
  "The tests trigger one or two error shapes; the property quantifies over every output type, exception and nesting.",
  ["mcpyrate/core.py", "mcpyrate/expander.py"],
  [("BaseMacroExpander.expand", "mcpyrate/core.py"), ("_insert_coverage_dummy_stmt/_make_coverage_dummy_expr", "mcpyrate/expander.py")])
p("C07", "Macro-imports bind exactly the imported macros and become plain imports",
  "A top-level from-import whose first name is the un-renamed magic name binds exactly the macros listed after it, under their as-names if given, to the objects of those names in the named (absolute, relative or self) module, later imports overriding earlier ones; a missing module, missing name or non-callable object is an import error located at the statement. After the bindings are made the statement is replaced by an import of the absolute module name with no names (or, for a self-import, vanishes apart from a coverage marker), and all other statements are left alone.",
  ["programs", "configurations"], "all module bodies and import statements, all values of the reload/transform/self-module/renaming options",
  "Tests import a few fixed macros; the combination of levels, renames, failures and statement positions is unbounded.",
  ["mcpyrate/coreutils.py", "mcpyrate/expander.py"],
  [("ismacroimport/get_macros", "mcpyrate/coreutils.py"), ("find_macros", "mcpyrate/expander.py")])
p("C08", "Expanded code has valid contexts and complete source locations",
  "After expansion every name, attribute, subscript, starred, tuple and list node carries the context its position demands (store or delete for targets, load elsewhere), even if a macro shared one node between several positions. Every node that needs a source location has one: nodes without one get it from the invocation, in the update mode their nearest located ancestor, in the overwrite mode all nodes get the reference location; locations that were already present are otherwise kept.",
  ["inputs", "programs"], "all ASTs, all three location modes, trees with shared nodes",
  "Tests fix a few trees; the claim is per node position and per sharing pattern.",
  ["mcpyrate/astfixers.py", "mcpyrate/core.py"],
  [("fix_ctx", "mcpyrate/astfixers.py"), ("fix_locations", "mcpyrate/astfixers.py")])
p("C09", "No internal marker survives expansion, and marker tools are exact",
  "The result of a top-level expansion contains no expander marker anywhere, and removing markers of a class replaces each by its content and changes nothing else. Finding markers reports exactly those present; the check for leftover markers fails exactly when some are present. Registered global postprocessors run exactly once each per expansion, in registration order.",
  ["inputs", "programs", "histories"], "all ASTs with markers in any slot, all marker classes, all registration histories",
  "Tests place a marker in one or two positions; the claim is over all positions and nestings.",
  ["mcpyrate/markers.py", "mcpyrate/core.py"],
  [("get_markers/delete_markers/check_no_markers_remaining", "mcpyrate/markers.py"), ("global_postprocess/add_postprocessor/remove_postprocessor", "mcpyrate/core.py")])
p("C10", "AST walkers scope their state to subtrees and collect in visit order",
  "In the state-carrying AST walkers, state changes requested for a subtree are visible while that subtree is visited and nowhere else, requests nest and are undone on the way out even when a visitor fails, and siblings never see each other's state. Collected items come out in visiting order and resetting restores the initial state. Visiting a statement list edits it in place, splicing in lists returned for elements and dropping elements replaced by nothing.",
  ["inputs", "histories"], "all trees, all sequences of state requests, visitors that return or raise",
  "Tests use one or two walkers on small trees; the stack discipline is a property of every nesting.",
  ["mcpyrate/walkers.py"],
  [("BaseASTWalker, ASTVisitor, ASTTransformer", "mcpyrate/walkers.py")],
  state=[{"name": "_stack and _subtree_overrides", "meaning": "state stack and pending per-subtree state"}])
p("C11", "Splicing puts code exactly at the designated place of the template",
  "Splicing an expression or statements into a template replaces each designated placeholder, and only it, by the given code, keeps all other template statements in order, with second and later placeholders getting independent copies. Splicing a module body into a dialect template gives, in the documented order, the docstring(s), future-imports, the body's __all__, the dialect-imports and macro-imports of template and body, and then the rest of the template with the rest of the body at the placeholder, losing and duplicating no statement; a template without a placeholder stays as it is, and malformed arguments raise the documented errors.",
  ["inputs"], "all templates, placeholder positions and spliced code",
  "Tests splice one statement into one template; positions and shapes are unbounded.",
  ["mcpyrate/splicing.py"],
  [("splice_expression/splice_statements/splice_dialect", "mcpyrate/splicing.py")])
p("C12", "AST utilities are total and exact: fresh names, renaming, flattening, nesting",
  "Generated names are never repeated within a process, are valid identifiers, and carry the requested base; renaming replaces every identifier occurrence of the old name in the tree, in every field that can hold an identifier, and nothing else. Flattening, docstring extraction, line-number lookup, unique-id scrubbing and binding extraction return exactly what they describe for every input. A nesting tracker's value after any sequence of nested changes is back to what it was, also when the body fails.",
  ["inputs", "histories"], "all names, trees, lists and call histories",
  "Tests sample a few inputs; identifier-bearing fields and histories are not enumerated.",
  ["mcpyrate/utils.py"],
  [("gensym, scrub_uuid, flatten, rename, extract_bindings, getdocstring, get_lineno, NestingLevelTracker", "mcpyrate/utils.py")],
  state=[{"name": "_previous_gensyms", "meaning": "names generated so far"}])
p("C13", "Each phase runs exactly its own code plus what is lifted from higher phases",
  "In a module using phases, the code compiled and run at phase k is exactly the statements of blocks declared for phase k and of those lifted from higher phases, in source order, plus all future-imports; phase 0 contains everything, unwrapped, in source order, with the phase number defined after the docstring and future-imports. A block counts as phase n only if it has exactly the documented form with an integer literal n of at least 1. The module table entry of the module being compiled is afterwards what it was before, whether compilation succeeded or failed.",
  ["programs", "fault_sequences"], "all module bodies with phase blocks, all numbers of phases, failures at any phase",
  "Tests cover a 3-phase demo; ordering, lifting and restoring must hold for all bodies and failure points.",
  ["mcpyrate/multiphase.py", "mcpyrate/coreutils.py"],
  [("iswithphase, extract_phase, detect_highest_phase, multiphase_expand", "mcpyrate/multiphase.py"), ("split_futureimports, inject_after_futureimports", "mcpyrate/coreutils.py")],
  state=[{"name": "sys.modules[self_module]", "meaning": "temporarily replaced during multi-phase compilation"}])
p("C14", "Dialects transform source then AST in import order and postprocess once each",
  "Each dialect-import in the module is processed exactly once, in the order in which the imports appear in the current code, including ones introduced by an earlier transformer: first all source transforms, then all AST transforms, then, after macro expansion, each AST-transform dialect's postprocessing, in order and on the same instance. Every transform receives the full output of the previous one; a transformer that declines counts as no change, and an empty output, an exception or a non-dialect is an error naming the dialect. Dialect-imports are replaced by plain imports and ordinary code is left untouched.",
  ["programs", "histories"], "all sequences of dialect-imports and transformer behaviours",
  "Tests run two or three fixed dialects; chaining order, repeated and introduced imports need all sequences.",
  ["mcpyrate/dialects.py"],
  [("DialectExpander.transform_source/transform_ast/postprocess_ast/find_dialectimport_*", "mcpyrate/dialects.py")])
p("C15", "Run-time compile, run and module helpers keep namespaces and module table right",
  "Compiling and running source text, an AST or a statement list at run time expands the macros in it and executes it in the given or newly created module, whose docstring, file and name are set as for an imported module; running in the same module twice keeps earlier definitions. Creating a module registers it under its dotted name and binds it in its parent only when asked, and a temporary module's registration is gone after its context ends, even on failure, with any earlier module of that name left as specified. Invalid combinations are rejected with an error.",
  ["inputs", "histories", "fault_sequences"], "all inputs to expand/compile/run and all create/temporary module sequences",
  "Tests run a few programs; registration and cleanup must hold for every history and failure point.",
  ["mcpyrate/compiler.py"],
  [("expand, compile, run, getdocstring", "mcpyrate/compiler.py"), ("create_module, temporary_module", "mcpyrate/compiler.py")],
  state=[{"name": "sys.modules", "meaning": "module table"}])
p("C16", "A module is recompiled exactly when it or a macro/dialect dependency is newer",
  "The modification time reported for a source file is the latest of its own and of the files that it macro-imports or dialect-imports from, recursively, including imports inside phase blocks, for every dependency graph. The remembered list of macro-imports is used only if it was made from the present version of the file, and a damaged or unwritable memory never changes the result. Files that are not Python source or belong to the standard library keep the standard behaviour, and switching the import hooks off restores the original ones.",
  ["histories", "configurations", "fault_sequences"], "all dependency graphs, edit histories and cache-file states",
  "Tests never edit files between imports nor corrupt caches.",
  ["mcpyrate/importer.py", "mcpyrate/activate.py"],
  [("path_stats/path_xstats", "mcpyrate/importer.py"), ("activate/deactivate", "mcpyrate/activate.py")],
  state=[{"name": "*.mcpyrate.pickle", "meaning": "macro-import cache file beside the .pyc"}])
p("C17", "File-to-package resolution follows the deepest matching import path entry",
  "A file is attributed to the deepest directory of the import path that really contains it (a directory whose name is merely a prefix of another's does not match), its relative path is the rest of the path, and its package is the dotted form of its containing directory under that entry. Files outside every entry, and files at the top level of an entry when a package is required, are rejected with the documented errors.",
  ["configurations", "inputs"], "all sys.path contents and file names",
  "Tests run with one sys.path.",
  ["mcpyrate/coreutils.py"],
  [("match_syspath, relativize, resolve_package", "mcpyrate/coreutils.py")])
p("C18", "A bunch is a mutable mapping whose items are its attributes",
  "For every sequence of operations, a bunch holds the same items as a dictionary put through the same operations, and each item whose name is not reserved is readable, writable and deletable as an attribute with the same effect; reserved names stay methods and cannot be overwritten. Copies are independent; equality, containment, length, iteration order, views, get, pop, setdefault, clear, replace and keyword update agree with the dictionary's. Wrapping a mapping as a bunch shares its storage, returns a bunch unchanged, and rejects non-mappings and keys that are not identifiers.",
  ["histories", "inputs"], "all operation sequences and keys",
  "Tests do a linear script of operations.",
  ["mcpyrate/bunch.py"],
  [("Bunch", "mcpyrate/bunch.py"), ("bunchify shim", "mcpyrate/bunch.py")])
p("C19", "An AST dump evaluates back to the dumped tree",
  "The textual dump of any AST or list of ASTs, multi-line or not, is an expression which, evaluated with the node classes in scope, rebuilds a tree equal to the dumped one. Source locations are included exactly when asked for; coloured dumps differ from plain ones only by colour codes; anything that is not an AST or list of ASTs is rejected with a type error.",
  ["inputs", "configurations"], "all ASTs, including optional missing fields, and all option combinations",
  "Tests dump a couple of trees.",
  ["mcpyrate/astdumper.py"],
  [("dump", "mcpyrate/astdumper.py:dump")])
p("C20", "Cache cleaning removes exactly the bytecode cache folders under the given path",
  "Cleaning (or listing) bytecode caches concerns exactly the directories named as bytecode caches found under the given directory at any depth; everything else, including whatever a symbolic link points to, is left alone. A path that is not an existing directory is rejected before anything is deleted.",
  ["inputs", "configurations"], "all directory trees",
  "No test covers deletion.",
  ["mcpyrate/pycachecleaner.py"],
  [("getpycachedirs/deletepycachedirs", "mcpyrate/pycachecleaner.py")])
p("C21", "Debugging aids never change what the program becomes",
  "Stepping through macro expansion, showing bindings, and formatting macro functions or locations only print: the expanded code is the same as without them (the aid itself removed), each expansion step is reported once, and any hook or output setting they installed is restored, also on errors.",
  ["programs", "fault_sequences"], "all expanded programs, all debug-aid options",
  "Tests use debug aids only in demos, without comparing results.",
  ["mcpyrate/debug.py", "mcpyrate/metatools.py"],
  [("step_expansion, StepExpansion, show_bindings", "mcpyrate/debug.py"), ("stepr/expand_first_with_bindings helpers", "mcpyrate/metatools.py")])
p("C22", "Expanding macros in quoted code agrees with ordinary expansion",
  "The tools that expand macros inside quoted code, at quote time or at run time, once or fully, with the use-site's or the macro's own bindings, produce the tree that expanding the same code directly in that mode and with those bindings would produce. They leave code without invocations unchanged.",
  ["programs", "configurations"], "all quoted trees, all variants of the tools",
  "Tests sample one example per tool.",
  ["mcpyrate/metatools.py"],
  [("macro_bindings, fill_location, expand*, expandr*, expand1*, ...", "mcpyrate/metatools.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
