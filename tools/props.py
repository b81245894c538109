"""Which simulated worlds decide which property, and which violation classes
count for it. A selector is "class" or "class@operation-prefix"; memory errors,
aborts and hangs always count."""

GRAMMAR_MODEL = "the reference model of the grammar semantics in sim/model.cc (written from the documentation, independent of the implementation's data structures)"

PROPS = {
    "C01": dict(
        plan=[("grammar/mix", 4), ("grammar/construct", 2), ("grammar/life", 2), ("grammar/complete", 1), ("grammar/cmd", 1),
              ("grammar/file", 1), ("grammar/dyn", 1), ("grammar/lex", 1), ("grammar/cond", 1), ("grammar/expr", 1), ("grammar/ext", 1), ("grammar/inspect", 1),
              ("cont/all", 1), ("cont/map", 1), ("conf/all", 1), ("ptree/all", 1), ("yaml/all", 1), ("edit/all", 1),
              ("init/all", 1), ("log/all", 1), ("eval/all", 1), ("conc/all", 1), ("mem/all", 1)],
        classes=["leak", "resource"],
        what="no crash, no invalid access, no double or mismatched release, no abort, no hang, nothing left allocated or open"),
    "C02": dict(
        plan=[("grammar/parse", 4), ("grammar/mix", 2), ("grammar/lex", 2), ("grammar/dyn", 1), ("grammar/expr", 1), ("grammar/cond", 1), ("grammar/cmd", 1)],
        classes=["result@parse", "spurious@parse", "result@getval", "spurious@getval", "leak"],
        what="every parse returns exactly the result of the reference model, or fails because a fault was injected or the grammar is unusable"),
    "C03": dict(
        plan=[("grammar/complete", 4), ("grammar/mix", 2), ("grammar/lex", 2), ("grammar/dyn", 1), ("grammar/file", 1), ("grammar/cmd", 1), ("grammar/expr", 1)],
        classes=["result@comp", "spurious@comp", "leak"],
        what="every completion request returns exactly the items of the reference model, or fails because of a fault"),
    "C04": dict(
        plan=[("grammar/construct", 5), ("grammar/mix", 1), ("grammar/expr", 2), ("grammar/lex", 1), ("grammar/cond", 1), ("grammar/cmd", 1), ("grammar/ext", 1)],
        classes=["atomicity", "leak", "lifetime", "result@new_", "result@change_", "result@config_", "result@node_", "result@bare",
                 "spurious@new_", "spurious@change_", "spurious@config_", "spurious@node_", "spurious@bare"],
        what="construction and reconfiguration steps take effect entirely or not at all, and consume their arguments exactly once"),
    "C07": dict(
        plan=[("grammar/life", 5), ("grammar/construct", 2), ("grammar/mix", 1), ("grammar/expr", 1), ("grammar/cmd", 1), ("conf/all", 1), ("yaml/all", 1)],
        classes=["lifetime", "leak"],
        what="a node is destroyed exactly when the application can no longer reach it, in shared and cyclic graphs"),
    "C08": dict(
        plan=[("conc/all", 6), ("grammar/mix", 2), ("grammar/parse", 1), ("grammar/complete", 1)],
        classes=["isolation", "leak@round"],
        what="parsing and completing leave grammars, inputs and other results untouched"),
    "C09": dict(
        plan=[("grammar/file", 5)],
        classes=["result", "spurious", "resource", "leak"],
        what="file completion equals the listing of the simulated file system or fails"),
    "C14": dict(
        plan=[("grammar/cmd", 5)],
        classes=["result", "spurious", "atomicity", "leak", "lifetime"],
        what="a command string compiles to the grammar it denotes"),
    "C15": dict(
        plan=[("grammar/cond", 5)],
        classes=["result", "spurious", "atomicity", "leak", "lifetime"],
        what="a conditional grammar matches exactly when its child matches and its condition holds on the partial result"),
    "C05": dict(
        plan=[("cont/all", 3), ("cont/map", 2)],
        classes=["result", "spurious", "atomicity", "lifetime", "leak"],
        oracle="oracle: executable models of maps and sequences in sim/world_cont.cc",
        what="every container operation has exactly the effect of the mathematical operation or fails without effect, and values are released exactly once"),
    "C06": dict(
        plan=[("conf/all", 1)],
        classes=["result", "spurious", "atomicity", "lifetime", "leak"],
        oracle="oracle: executable model of configuration trees and schemas in sim/world_conf.cc",
        what="configuration trees equal the model tree after every edit, copies are independent, validation accepts exactly the conforming trees"),
    "C10": dict(
        plan=[("yaml/all", 1)],
        classes=["result", "spurious", "atomicity", "lifetime", "leak", "resource"],
        oracle="oracle: the described grammar built by hand and the reference model (sim/world_yaml.cc, sim/model.cc)",
        what="an imported file yields the grammar it describes, or an error and nothing"),
    "C11": dict(
        plan=[("edit/all", 1)],
        classes=["result", "spurious", "atomicity", "lifetime", "leak", "resource"],
        oracle="oracle: what was typed, the same requests made without faults, and a model of the history (sim/world_edit.cc)",
        what="lines, completions, helps and history of a session equal those of the model session, or the request fails without damaging it"),
    "C12": dict(
        plan=[("init/all", 1)],
        classes=["result@init", "result@exit", "result@malloc_register", "spurious@init", "atomicity@init", "leak"],
        oracle="oracle: the rules of initialisation (order, undo in reverse order, nothing left) in sim/world_init.cc",
        what="initialisation succeeds entirely or is undone entirely, shutdown releases everything, and the library works after any number of cycles"),
    "C13": dict(
        plan=[("eval/all", 1)],
        classes=["result", "spurious", "lifetime", "leak"],
        oracle="oracle: a recursive-descent reading of the expression grammar in sim/world_eval.cc",
        what="the value of an expression is the one its structure defines; every value is consumed or released exactly once, also when a callback fails"),
    "C16": dict(
        plan=[("log/all", 1)],
        classes=["result", "spurious", "leak"],
        oracle="oracle: model of handlers, levels and components in sim/world_log.cc",
        what="every message reaches the current handler once and complete, or its loss is reported; registrations and levels take effect entirely or not at all"),
    "C17": dict(
        plan=[("ptree/all", 1)],
        classes=["result", "spurious", "atomicity", "lifetime", "leak"],
        oracle="oracle: executable model of ordered trees in sim/world_ptree.cc",
        what="parse trees equal the model tree after every edit, copy, search and traversal, or the operation fails without effect"),
    "C19": dict(
        plan=[("grammar/inspect", 5), ("grammar/mix", 1)],
        classes=["result@children", "result@find", "result@desc", "result@dump", "result@getval", "spurious@children", "spurious@find", "spurious@desc", "spurious@dump", "spurious@getval",
                 "isolation", "leak"],
        what="children, identifiers, descriptions, values and dumps of a grammar are exactly those the model graph has, or the request fails because of a fault"),
    "C20": dict(
        plan=[("grammar/ext", 5), ("grammar/mix", 1)],
        classes=["result", "spurious", "atomicity", "lifetime", "isolation", "leak"],
        oracle="oracle: the model of the application-defined types and of the registry in sim/xtype.cc, and the reference model in sim/model.cc",
        what="types defined by the application work like built-in ones: each callback is called when, and only when, the contract says, its answer decides the outcome, and its failure fails the request"),
    "C21": dict(
        plan=[("mem/all", 1)],
        classes=["result", "spurious", "leak"],
        oracle="oracle: the requests received by the registered allocator and the expected contents of every live block (sim/world_mem.cc)",
        what="every memory request reaches the registered allocator, its outcome reaches the caller, and contents are exact"),
}
