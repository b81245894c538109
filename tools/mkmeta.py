#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))


ALL = [
P("C01", "No failure pattern crashes the library or loses a resource",
  "Whatever sequence of API calls an application makes, and whichever memory allocations, pattern compilations, directory accesses or user callbacks fail along the way, the library never crashes, aborts, hangs or touches memory it does not own. "
  "Memory goes back exactly once to the allocator it came from. Once the application has released everything it holds and shut the library down, no memory, compiled pattern or directory handle remains held.",
  ["fault_sequences", "histories", "inputs"], "every API history, every subset of failing allocations / system calls / callbacks at every point of it",
  "The tests run fixed scripts with no failing allocation (the allocator hook of the test program fails at most one allocation per whole test run and ignores the outcome).",
  ["src/*.c"], [("error paths of every constructor and operation", "src/*.c"), ("pluggable allocator", "src/ecoli_malloc.c")],
  ["the allocator registered with ec_malloc_register(), libc allocation calls, directory and regex calls"]),
P("C02", "Parsing returns exactly the defined result, or an error",
  "For any usable grammar and any token sequence, parsing returns the result the grammar defines: the same verdict, the same number of consumed tokens, and the same tree carrying the same nodes, tokens and attributes. "
  "It may fail instead only if a resource, system call or user callback failed during that call, or the grammar is not usable. A failure is never turned into a match, a non-match or a partial tree, and the next call is unaffected by it.",
  ["inputs", "configurations", "fault_sequences", "histories"], "every grammar an application can assemble (including shared, recursive, dynamic and conditional parts), every input, every fault pattern",
  "The tests check the consumed length of a few dozen inputs on hand-written grammars, never the tree under failures.",
  ["src/ecoli_parse.c", "src/ecoli_node_*.c"], [("parse callbacks and backtracking in the node types", "src/ecoli_node_*.c"), ("state tree construction", "src/ecoli_parse.c")],
  ["ec_parse(), ec_parse_strvec() and the returned tree"]),
P("C03", "Completion returns exactly the defined items, or an error",
  "For any usable grammar and any partial input, completion returns exactly the set of items the grammar defines, in order, with their kind, start, full text, completion, display text and partial parse state, and with counts that agree with iteration. "
  "It may fail instead only if a resource, system call or user callback failed during that call, or the grammar is not usable. A failure never yields a truncated or altered list; merging two lists yields their concatenation.",
  ["inputs", "configurations", "fault_sequences", "histories"], "every grammar, every partial input, every fault pattern, every sequence of requests",
  "The tests compare the item strings of a few dozen completions without failures.",
  ["src/ecoli_complete.c", "src/ecoli_node_*.c"], [("complete callbacks of the node types", "src/ecoli_node_*.c"), ("groups, items and counters", "src/ecoli_complete.c")],
  ["ec_complete(), ec_complete_strvec(), iteration and accessors of items"]),
P("C04", "Building and reconfiguring grammars is all or nothing",
  "Every call that creates a grammar node, adds a part to it or gives it a configuration either succeeds with its full effect or reports an error and leaves every existing node behaving as before. "
  "It reports an error exactly when an argument is invalid or a resource failed. In both cases it consumes the nodes and configurations handed to it exactly once.",
  ["histories", "fault_sequences", "configurations"], "every sequence of constructor, add, set and configure calls with valid and invalid arguments, every fault point inside them",
  "The tests build valid grammars only, or call constructors with invalid arguments without checking that nothing changed, and never with a failure in the middle of a change.",
  ["src/ecoli_node.c", "src/ecoli_node_*.c", "src/ecoli_node_helper.c", "src/ecoli_config.c"],
  [("set_config callbacks: build aside, then swap", "src/ecoli_node_*.c"), ("configuration validation against the schema", "src/ecoli_config.c")],
  ["constructors, ec_node_set_config(), *_add(), *_set_*(), followed by parsing, completion and child enumeration"]),
P("C05", "Containers behave like maps and sequences under any failure",
  "Dictionaries, hash tables, vectors and string vectors behave like mathematical maps and sequences for every history of operations, including copies sharing elements. "
  "An operation that fails leaves the container unchanged; one that succeeds has its full effect. A value handed to a map is owned by it even if storing it fails. Each stored value is released exactly once, when its last holder goes away.",
  ["histories", "fault_sequences", "inputs"], "every history of set, get, delete, duplicate, append, remove, compare, iterate and free over several containers, every fault point",
  "The tests run one fixed script per container without failures; rehashing, sharing between copies and failures in the middle of an operation are not combined.",
  ["src/ecoli_dict.c", "src/ecoli_htable.c", "src/ecoli_vec.c", "src/ecoli_strvec.c"], [("reference-counted elements, bucket resize", "src/ecoli_htable.c"), ("element copy and release callbacks", "src/ecoli_vec.c")],
  ["the container API"]),
P("C06", "Configuration trees keep their contents and validate exactly",
  "A configuration value behaves like the tree it was built as: insertion, replacement, deletion, copying and comparison have their full effect or fail leaving the tree unchanged, and a value handed over is owned exactly once. "
  "Validation accepts a configuration exactly when it conforms to the schema. Copies are equal to and independent of their source.",
  ["histories", "fault_sequences", "configurations"], "every configuration tree and schema, every history of edits, every fault point",
  "The tests validate two schemas against hand-written values without failures.",
  ["src/ecoli_config.c"], [("typed values, list and dict containers", "src/ecoli_config.c"), ("schema validation", "src/ecoli_config.c")], ["the configuration API"]),
P("C07", "Nodes live exactly as long as they are reachable",
  "A grammar node exists as long as the application holds a reference to it or to a node leading to it, and is destroyed, once, as soon as it does not. "
  "This holds for shared nodes and for recursive grammars, whatever the order in which references are taken and dropped, and when construction or reconfiguration fails midway.",
  ["histories", "fault_sequences", "configurations"], "every graph of nodes (shared, cyclic), every order of taking, releasing and replacing references, every fault point",
  "The tests release one small loop built from two node types, in one order.",
  ["src/ecoli_node.c", "src/ecoli_node_*.c"], [("reference counts and marking of loops", "src/ecoli_node.c ec_node_free()"), ("child enumeration with reference counts", "get_child of the node types")],
  ["destruction callbacks observed through allocator and attributes attached to nodes"]),
P("C08", "Using a grammar never changes it, its inputs or other results",
  "Parsing and completing never modify the grammar, the input or any result obtained earlier, so a grammar can be used by several activities whose requests interleave or nest, including from user callbacks. "
  "Each result equals what the same request yields when run alone, and stays valid and unchanged while others are computed or released.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of several activities at allocation, callback and system call points, every fault pattern in any of them",
  "The tests perform one request at a time and never look at the grammar or at older results afterwards.",
  ["src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node_*.c"], [("per-call state trees", "src/ecoli_parse.c, src/ecoli_complete.c")], ["results and grammar probes before and after"]),
P("C09", "File completion equals the directory contents, or fails",
  "Completing a path returns exactly the entries of the directory it designates that start with the given name, with directories marked as such and hidden entries only when asked for. "
  "If the directory cannot be examined or read to its end, the request fails instead of returning a part of it, and no directory stays open.",
  ["inputs", "fault_sequences", "histories"], "every file tree, entry type (including unknown), path and failing directory access or allocation",
  "The test replaces the file system by one fixed directory whose accesses always succeed.",
  ["src/ecoli_node_file.c"], [("directory walk", "src/ecoli_node_file.c")], ["completion of file nodes against a simulated file system"]),
P("C10", "Importing a grammar file yields the described grammar or nothing",
  "Importing a grammar description yields a grammar that parses exactly as the description says, including named references to shared parts. "
  "If the file cannot be opened or read completely, is malformed, refers to unknown types or parts, or memory runs out, the import reports an error and leaves nothing behind.",
  ["inputs", "fault_sequences"], "every description, every way of damaging or truncating it, every open, read and allocation failure",
  "No test imports a grammar file in the library's test suite.",
  ["src/ecoli_yaml.c"], [("document walk building configurations", "src/ecoli_yaml.c")], ["ec_yaml_import() followed by parsing"]),
P("C11", "Interactive sessions deliver every line exactly once",
  "In an interactive session each accepted line is delivered exactly once, complete, and parsed to the result the grammar defines. "
  "Help and completion show what the grammar allows at the cursor and insert exactly the common completion. Interruptions, end of file, terminal errors and memory shortage end or repeat the current request without corrupting the session, its prompt or its history.",
  ["histories", "fault_sequences", "inputs"], "every sequence of keystrokes, interruptions and end of file, every failing terminal call or allocation",
  "No test drives the line editor glue; it needs a terminal.",
  ["src/ecoli_editline.c"], [("callbacks around the line editing library", "src/ecoli_editline.c")], ["the editline API over a simulated line editor"]),
P("C12", "Initialisation and shutdown are repeatable and fail cleanly",
  "Initialisation either makes the whole library usable or reports an error and leaves nothing initialised or allocated, so that it can be retried. "
  "Shutdown releases everything initialisation created. Any number of initialise and shutdown cycles, with failures anywhere, leaves the library as usable as the first time.",
  ["histories", "fault_sequences"], "every sequence of initialisation and shutdown with failures at every allocation in them",
  "The tests initialise once per process.",
  ["src/ecoli_init.c", "src/ecoli_node_cmd.c", "src/ecoli_node_cond.c"], [("ordered list of module callbacks", "src/ecoli_init.c")], ["ec_init(), ec_exit() and use of the modules in between"]),
P("C13", "Expression evaluation combines values exactly as written",
  "Evaluating a parsed expression gives the application's callbacks exactly the operands and operators that the expression's structure defines: operators added first bind tighter, operators of one level apply from left to right, prefix operators apply to the rest of their expression, suffix operators to the preceding operand. "
  "Each value is consumed exactly once. If a callback reports a failure, evaluation stops, reports the error, and every value not yet consumed is released exactly once, whatever the callback left in its result.",
  ["inputs", "fault_sequences", "configurations"], "every expression grammar (including values that contain expressions) and expression, every callback failing",
  "The test evaluates a handful of arithmetic expressions whose callbacks never fail.",
  ["src/ecoli_node_expr.c"], [("result merging", "src/ecoli_node_expr.c")], ["the evaluation callbacks"]),
P("C14", "Command strings compile to the grammar they denote, or an error",
  "A command string compiles to the grammar its notation denotes: words, alternatives, unordered lists, options, groups and repetitions, with words naming given nodes replaced by those nodes. "
  "Malformed strings and resource failures give an error. Compiling never modifies the given nodes or shares state with other commands.",
  ["inputs", "fault_sequences", "histories"], "every command string and set of named nodes, every fault point during compilation and later use",
  "The tests compile three command strings.",
  ["src/ecoli_node_cmd.c", "src/ecoli_node_expr.c"], [("expression grammar and evaluation into nodes", "src/ecoli_node_cmd.c")], ["parsing and completing with the compiled command"]),
P("C15", "Conditional grammars match exactly when their condition holds",
  "A conditional grammar matches exactly when its child matches and its condition, evaluated on the partial result reached so far, is true. "
  "A condition that cannot be evaluated, because it is ill-typed or resources fail, gives an error and never a verdict.",
  ["inputs", "fault_sequences", "configurations"], "every condition, every surrounding grammar and input, every fault point during evaluation",
  "The tests check one condition on five inputs.",
  ["src/ecoli_node_cond.c"], [("function-based evaluation over node sets", "src/ecoli_node_cond.c")], ["parsing with conditional grammars"]),
P("C16", "Log messages reach the current handler, complete and once",
  "Every message given to the log is passed once, complete and with its component and level, to the handler registered last, and the handler's answer is returned; a message that cannot be delivered is reported as an error to its sender. "
  "The default handler shows exactly the messages of the selected level and above, completely. Registering a component gives one stable identifier per name; registrations, level and handler changes take full effect or fail changing nothing. This holds when handlers fail, log themselves or replace themselves.",
  ["histories", "fault_sequences"], "every history of registrations, level changes, handler changes and messages of any length, every failing allocation, output or handler",
  "The tests log one message per level.",
  ["src/ecoli_log.c"], [("component table, handler and level", "src/ecoli_log.c")], ["the registered log handler, the error stream"]),
P("C17", "Parse trees keep their structure under every edit and copy",
  "Parse trees behave like ordered trees for every history of linking, unlinking, copying, searching and iterating: order, parents, tokens and attributes are exactly those set. "
  "A copy is equal to its source, designates the corresponding position and is independent of it. A failing operation leaves the tree unchanged.",
  ["histories", "fault_sequences"], "every history of edits, copies and searches over trees of any shape, every fault point",
  "The tests build one tree and search it without failures.",
  ["src/ecoli_parse.c"], [("sibling lists, deep copy with position tracking", "src/ecoli_parse.c")], ["the parse tree API"]),
P("C18", "String helpers are exact for every input",
  "Number parsing, prefix computation and length helpers return the mathematically defined result for every string and every bound, or report that the string is not a number in range.",
  ["inputs"], "every string, base and bound", "The tests sample a few strings.",
  ["src/ecoli_string.c"], [("strtoll-based parsing with bounds", "src/ecoli_string.c")], ["the string helper functions"]),
P("C19", "Inspecting a grammar reports exactly what it contains",
  "Enumerating the children of a node, looking a node up by identifier, asking for its type, identifier, attributes, description or configuration, converting a matched integer and dumping a grammar all report exactly the current structure of the grammar, after any history of construction and reconfiguration and for shared and recursive graphs. "
  "They report an error only for a request that designates nothing or when a resource failed, and never change the grammar.",
  ["histories", "configurations", "fault_sequences"], "every grammar graph, every history of changes to it, every inspection request, every fault point",
  "The tests look up one child and dump a few grammars without reading the output.",
  ["src/ecoli_node.c", "src/ecoli_node_*.c"], [("get_children_count, get_child and get_desc callbacks", "src/ecoli_node_*.c"), ("loop-safe recursive walk", "src/ecoli_node.c ec_node_find(), ec_node_dump()")],
  ["ec_node_get_child(), ec_node_find(), ec_node_desc(), ec_node_dump(), ec_node_get_config() and the getters of the node types"]),
P("C20", "Node types defined by an application work like built-in ones",
  "An application can register its own node types and use them anywhere in a grammar. Private data is given zeroed, initialised once and released once; a configuration reaches the type only if it is valid, and takes effect entirely or not at all; the answer of each callback decides the outcome of the request and a failing callback fails it. "
  "Items a type contributes to a completion keep the texts and attributes given to them. Registering a type makes it available under its name, replaces an existing one only if asked to, and fails without effect otherwise.",
  ["histories", "fault_sequences", "configurations"], "every grammar mixing built-in and application-defined types, every history of registrations and requests, every failing callback and allocation",
  "One test registers a type; none exercises its callbacks under failure or combined with the built-in types.",
  ["src/ecoli_node.c", "src/ecoli_complete.c", "src/ecoli_parse.c"], [("type registry and node creation", "src/ecoli_node.c"), ("items and groups added by a type", "src/ecoli_complete.c"), ("parse state given to a type", "src/ecoli_parse.c")],
  ["ec_node_type_register(), ec_node_from_type(), ec_parse_child(), ec_complete_child(), ec_comp_add_item() and the item accessors"]),
P("C21", "Memory requests reach the registered allocator with their exact outcome",
  "Every request made through the library's memory services (allocating, zeroed arrays, resizing, duplicating strings, formatting text, releasing) is served by the allocator the application registered, and its outcome is what the caller gets: blocks of the size asked for, zeroed or filled with exactly the requested contents, attributed to the calling code. "
  "A refused request, an array whose size cannot be represented, or a text that cannot be formatted gives an error with errno set and changes nothing; resizing that fails leaves the old block as it was.",
  ["histories", "fault_sequences", "inputs"], "every sequence of memory and formatting requests, of any size and contents, with any of them refused by the allocator",
  "The tests allocate one block of ten bytes and one impossible array; no request is refused and no contents are compared.",
  ["src/ecoli_malloc.c", "src/ecoli_string.c", "include/ecoli_malloc.h"], [("dispatch to the registered handlers", "src/ecoli_malloc.c"), ("formatting into allocated memory", "src/ecoli_string.c")],
  ["ec_malloc(), ec_calloc(), ec_realloc(), ec_free(), ec_strdup(), ec_strndup(), ec_asprintf() and their function variants; the registered allocator"]),
]
NA = {"C18": "pure functions of their arguments: no schedule, fault, time or I/O for a simulation to decide; wrong results that reach a user are seen through C02 and C03 (integer and string nodes), but the property itself is not decided here"}
NOTE = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in ALL:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in ALL:
        i = p["id"]
        if i in PROPS:
            checks.append(dict(
                property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection (seeded search, model oracle, minimised replay)",
                level="exploration",
                level_note="Seeded search over " + p["quantifier"]["text"] + "; decides: " + PROPS[i]["what"] +
                ". Assumes the reference model or oracle named in DESIGN.md and the simulated environment; absence of a violation is evidence for the explored runs only."))
        else:
            na.append(dict(property=i, reason=NA.get(i, "not built yet")))
    m = dict(version=1, setup_cmd="bash build.sh >/dev/null", checks=checks, not_applicable=na,
             notes="Repairs of genuine defects are separate 'fix:' commits in /repo, listed in KNOWN_FINDINGS.txt.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for sch, obj in (("MANIFEST", [m]), ("PROPERTIES", ALL)):
        try:
            import jsonschema
            s = json.load(open(f"/root/.vp/{sch}.schema.json"))
            for o in obj:
                jsonschema.validate(o, s)
        except ImportError:
            pass


main()
