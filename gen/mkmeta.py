#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when something changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT, FN, STD = "src/runtime/mod.rs", "src/runtime/for_n.rs", "src/dyon_std/mod.rs"
TESTS = "The repository's tests run a fixed set of small scripts, mostly asserting only that they load or do not load; "
P = []
def prop(id, title, statement, over, text, tests, files, mech, note="", level="model_checking", technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=TESTS + tests,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "observe_at": ["values passed to host functions, how the run ends, variables left on the runtime's stacks"], "hook_needed": None},
                  _note=note, _level=level, _tech=technique))

TV = "TLA+ specification of the language; TLC validates recorded runs of the real interpreter against it"
prop("C01", "Mutation changes exactly the variable it names, and nothing else",
     "After any sequence of declarations, assignments (whole variables, items, properties), array changes and calls with mutable arguments, every variable holds the value given by Dyon's rules: a variable or slot that refers to another variable follows that variable, assigning through an item or a mutable argument changes the variable at the end, and values copied before a change do not change with it. No write is lost, duplicated or visible through an unrelated variable.",
     ["programs", "histories"], "all sequences of mutations over variables, arrays, objects and references among them",
     "none observes aliasing between variables after a sequence of writes.",
     [RT, "src/lib.rs", "src/write.rs", STD], [("assignment", RT + " fn assign_specific"), ("items and copy on write", RT + " fn item"), ("deep clone", "src/lib.rs fn deep_clone"), ("resolve", "src/runtime/mod.rs fn resolve")],
     "All sequences of one and two operations out of 57 over a fixed heap (thorough: 30000 of three), and random programs.")
ST = "TLA+ specification of the checker's rules and of the language; TLC decides for each program whether it is to be accepted, and validates the recorded run of what is accepted"
prop("C02", "The lifetime checker accepts exactly the programs whose references cannot outlive what they refer to",
     "A program is accepted only if it stores, returns or passes references in line with Dyon's lifetime rules: what is put into a variable outlives it (locals by order of declaration, arguments by their `: 'x` and `: 'return` annotations, current objects never), values that leave a block or a function do not refer to variables of it, and a call satisfies the lifetimes its function declares. An accepted program never observes a variable that is gone, in any run; a program that follows the rules is not rejected.",
     ["programs"], "all programs: declarations, stores, returns, calls, blocks, loops, closures and current objects in any combination, with any lifetimes on arguments",
     "about forty scripts are loaded, and none of the accepted ones is run to see whether a reference dangles.",
     ["src/lifetime/mod.rs", "src/lifetime/lt.rs", "src/lifetime/node.rs"], [("order of lifetimes", "src/lifetime/lt.rs impl PartialOrd for Lifetime"), ("lifetime of an expression", "src/lifetime/node.rs fn lifetime"), ("rules", "src/lifetime/mod.rs fn check_core")],
     "9232 programs that store one of four variables in another, 64 combinations of lifetimes times 111 bodies times 6 orders of declaration (quick: 3000), headers, and random programs. What is accepted is run too.", technique=ST)
prop("C03", "Only what is marked mut can be changed, and names mean the variable in scope",
     "Assignments, insertions and calls with `mut` on an argument or a current object that is not declared `mut` are rejected, wherever they stand; a call has to mark exactly the arguments that its function declares `mut`, and to give the right number of arguments. A name can be used exactly where a declaration of it is in scope, and means the innermost one; what is accepted runs with that meaning.",
     ["programs"], "all programs",
     "a dozen scripts with one violation each are loaded.",
     ["src/lifetime/mod.rs", "src/lifetime/node.rs", "src/module.rs"], [("mutability", "src/lifetime/mod.rs fn check_core"), ("scopes", "src/lifetime/mod.rs fn check_core, items to declarations")],
     "1640 programs with every kind of change in every kind of statement, 929 with a declaration and a use in different places, random programs.", technique=ST)
prop("C04", "Loops, labels, breaks, continues, if chains and returns run as written",
     "Statements run exactly in the order that the program text prescribes: conditions choose the first branch that is true, loops run the body once per iteration, `break` and `continue` (with or without a label) leave or restart the innermost or the labelled loop whatever kinds of loops lie between, and `return` leaves the function from any depth. Variables declared in a block are gone after it, on every way out.",
     ["programs"], "all nestings of loops of every kind with every jump at every iteration, if chains and early returns",
     "a few scripts with one labelled loop are run.",
     [RT, FN, "src/runtime/for_in.rs"], [("block, if, for, loop", RT + " fn block, if_expr, for_expr"), ("loops over ranges", FN)],
     "All pairs out of ten kinds of loops with seven jumps, three levels out of four kinds, if chains to length four, random programs.")
prop("C05", "Loops that compute give the mathematical result of their range",
     "`sum`, `prod`, `min`, `max`, `any`, `all`, `sift`, link loops and vector loops compute over exactly the indices of their half-open range, evaluated once and in order, also when the range is empty, negative, nested in one header with several counters, or found from how the body indexes. `break` and `continue` keep exactly what was accumulated before; the counter is not visible after the loop.",
     ["programs", "inputs"], "all kinds of loops, ranges, nestings and jumps",
     "scripts only check that such loops load.",
     [FN, "src/ast/infer_len.rs", "src/ast/mod.rs"], [("accumulating loops", FN), ("end found from the body", "src/ast/infer_len.rs"), ("several counters in one loop", "src/ast/mod.rs")],
     "Every kind of loop over 37 ranges, packed loops up to three counters, inferred ends, jumps, nesting of every kind in every kind, random programs.")
prop("C06", "Secrets: why and where tell exactly what made it so",
     "A boolean or number that carries a secret keeps it exactly when Dyon's rules say so: through operators the left operand's secret stays, `any`/`all`/`min`/`max` loops attach the index of the deciding iteration in front of what the body's value carries, and `explain_why`/`explain_where` add to it. `why` and `where` return it in order, from the outermost loop inwards, and fail on values that have no secret or did not hold.",
     ["programs", "inputs"], "all ways of producing, combining and reading secrets",
     "one script prints a secret; no value of one is compared.",
     [RT, FN, STD, "src/lib.rs"], [("secrets of loops", FN), ("why, where, explain", STD), ("secret of operators", STD)],
     "771 cases that combine loops, operators, assignments and functions, and random programs.")
prop("C07", "Errors propagate with ? and are caught by try, with nothing lost",
     "`?` gives the value inside of `some` and `ok` and otherwise leaves the function with an error that carries the original value, from any position in an expression; a failing operation ends the run with an error unless a `try` encloses it, which then gives an error value and undoes the variables of what was left. `unwrap`, `unwrap_err`, `unwrap_or`, `is_ok`, `is_err` agree with this, and an error value remembers each `?` it came through (function and line, in order); after a caught error everything else continues as if nothing had happened.",
     ["programs", "fault_sequences"], "all positions of failing operations and `?` in expressions, loops and calls",
     "scripts check one propagation each.",
     [RT, STD], [("try operator", RT + " fn try_expr, fn try_msg"), ("try expression and unwinding", RT + " E::TryExpr"), ("options and results", STD)],
     "410 enumerated cases and random programs with failing operations.")
prop("C08", "Operators give the documented result, left to right, and stop early",
     "Every operator applied to any two values gives the result of Dyon's rules or a run time error when the types do not fit; it never panics and never changes its operands. Operands and arguments are evaluated exactly once and from left to right, `&&` and `||` evaluate the right side only when needed, and an assignment operator gives what the operator gives. The text of an expression groups as the grammar says: products before sums, both from the left, a minus sign takes its product, a comparison takes one operand on the left and the rest on the right, in every spelling of the operators.",
     ["inputs", "programs"], "all operators over all pairs of kinds of values, and all forms with parts in which one part fails",
     "only a few operators on numbers are run.",
     [STD, RT, "src/ast/mod.rs", "assets/syntax.txt"], [("operators", STD + " fn add, sub, mul, div, rem, pow, less, equal, ..."), ("assignment operators", RT + " fn assign_specific"), ("calls of operators", RT + " fn call_binop_internal")],
     "16 operators and 7 assignments over 30 values of every kind, evaluation order of 24 forms with each part failing, all pairs of operators next to each other, random expressions in all spellings against the grammar of DyonExpr.tla, random programs; numbers are integers (and NaN).")
prop("C09", "Array, object, text and conversion functions do what their names say",
     "`push`, `pop`, `insert`, `remove`, `swap`, `reverse`, `clear`, `len`, the `_ref` forms, object properties, `has`, `keys`, text functions, number parsing and `str`/`typeof` act like the mathematical operations on sequences, maps and text; an index that is out of range or a wrong kind of argument is a run time error that leaves the array as it was. Copies made by `clone`, `push` and `insert` do not share anything with the original. Functions on numbers (`round`, `floor`, `ceil`, `abs`, `sqrt`, `min`, `max`, `sin`, `atan2`, `ln`, ..) give the mathematical value.",
     ["inputs", "histories"], "all sequences of library calls over small arrays, objects and texts",
     "the library is hardly called.",
     [STD, RT, "src/write.rs"], [("library", STD), ("deep clone", "src/lib.rs"), ("printing of values", "src/write.rs")],
     "476 enumerated cases, rounding of halves and quarters, laws of the functions on numbers at points where they are exact, random programs.")
prop("C10", "A link behaves as the sequence of its items",
     "A link is a sequence of booleans, numbers and texts: joining, appending, prepending, `head`, `tip`, `tail`, `neck`, `is_empty`, link loops and printing act on that sequence, for any length and any history of slicing and joining. Links are values: changing one never changes another that shares parts with it.",
     ["histories", "inputs"], "all histories of operations on links, with lengths around the sizes of internal blocks",
     "one script pushes to a link.",
     ["src/link.rs", STD, RT], [("link as list of slices", "src/link.rs"), ("link functions", STD)],
     "Lengths 0 to 380 around the block size, all pairs of joins of 9 lengths, long slicing histories, random programs.")
prop("C11", "Closures see what they grabbed when they were made",
     "A `grab` expression is evaluated exactly once, when the closure that its level names is made, wherever it stands in the body; later calls see that value whatever happened to the variables since, and calls do not affect each other. Closures can be stored, passed, returned, nested and called anywhere with the same result, and functions they call are those of where they were written.",
     ["programs"], "all positions and levels of grab expressions, and all ways to pass closures around",
     "scripts only load closures.",
     ["src/grab.rs", RT, "src/ast/mod.rs"], [("grab", "src/grab.rs"), ("closure and closure call", RT + " fn closure, fn call_closure")],
     "grab in 55 kinds of positions, all assignments of levels up to three, closures in data and loops, random programs.")
prop("C12", "Current objects are the nearest ones of the callers, and are shared",
     "A function that asks for a current object gets the one declared most recently by whoever called it, directly or through others, also through closures; reading and changing it acts on that very variable. A current object ends with the block that declared it, on every way out, and shadowing ends with it; a missing one is an error.",
     ["programs"], "all sequences of declarations, shadowings and uses over calls, blocks, loops and errors",
     "scripts declare at most one current object.",
     [RT], [("current objects", RT + " fn call_internal, fn declare_current, current_stack")],
     "All pairs of 22 operations, and random programs.")
prop("C21", "Lazy invariants skip exactly the arguments that do not matter",
     "When an argument meets one of the lazy invariants of its parameter, the call gives that value (or what it wraps) at once, without evaluating the arguments that follow or running the function; otherwise everything is evaluated once and the function runs. This holds for functions of the program and for the operators and functions of the library alike, and leaves no trace on variables.",
     ["programs", "inputs"], "all lazy invariants and argument values",
     "two scripts use one lazy invariant.",
     [RT, "src/ast/mod.rs"], [("lazy invariants", RT + " fn call_internal with lazy_inv"), ("library operators", STD)],
     "Nine kinds of invariants over 18 argument values, on either or both parameters, nested.")
prop("C23", "Vectors and matrices follow linear algebra",
     "Vector and matrix literals (with components and rows left out), swizzles, unrolled vector expressions, component access and arithmetic on vectors, matrices and numbers give the result of linear algebra on their components. A vector expression that is unrolled gives for each component what the expression gives with that index. Functions that make matrices (`mov`, `scale`, `rot`, `ortho`, `proj`, `mvp`, `inv`) give those.",
     ["inputs", "programs"], "all swizzles, all kinds of expressions in unrolled vectors, all operators over vectors, matrices and numbers",
     "scripts only load such expressions.",
     [RT, "src/ast/replace.rs", "src/vec4.rs", STD], [("vectors, matrices, swizzles", RT + " fn vec4, fn mat4, fn swizzle"), ("unrolled vectors", "src/ast/replace.rs"), ("arithmetic", STD)],
     "All 336 swizzles, 40 kinds of expressions in unrolled vectors, all operators, frames and products of matrices; components are integers, the rest by laws up to rounding.")
prop("C24", "A call runs the function it names with its arguments",
     "A call binds each parameter to its argument in order, runs the body with nothing else of the caller visible, and gives the returned value; declaration order, recursion and the short form of functions make no difference. Mutable arguments are the caller's variables, everything else of the callee is gone afterwards, and a function that should return a value but did not is an error.",
     ["programs"], "all programs of functions that call each other",
     "scripts with a single call are run.",
     [RT, "src/module.rs"], [("calls", RT + " fn call_internal"), ("function look-up", "src/module.rs")],
     "Enumerated argument, recursion and return forms, and random programs with up to seven functions.")
prop("C13", "The type checker accepts exactly the programs whose types fit",
     "A program is accepted exactly when each argument, assignment, returned value, condition and operand has a type that goes with the type wanted there: every type goes with `any` and with itself, `opt`, `res`, arrays, closures, `sec`, ad-hoc types and type variables as documented, overloads in their order with ambiguous ones refused. So a declared type is never given a value of a type that does not go with it without an `any` in between, and no well-typed program is refused.",
     ["programs"], "all programs over the types of the specification",
     "some eighty scripts are loaded, each with a single error or a single correct use.",
     ["src/ty.rs", "src/lifetime/typecheck.rs", "src/lifetime/typecheck/refine.rs", "src/lifetime/mod.rs", "src/module.rs"], [("goes_with", "src/ty.rs fn goes_with"), ("refinement", "src/lifetime/typecheck/refine.rs"), ("signatures", "src/module.rs Module::new")],
     "every pair of 30-odd types in every place where a type is wanted, every library function with every type of argument, every operator on every pair of types, random typed programs.", technique=ST)
prop("C14", "Threads run on their own copies and join gives their result once",
     "`go f(x, ..)` runs f on copies of its arguments, concurrently with the caller: nothing either of them does to its variables afterwards is seen by the other, whatever the interleaving. `join` waits and gives `ok` of the returned value, `err` when the thread failed, and `err` when the thread was already joined or the value is not a thread; a failure in a thread never ends the caller.",
     ["programs", "schedules"], "all programs that start and join threads, under every interleaving of their steps",
     "threads are only loaded, never run.",
     [RT, "src/dyon_std/mod.rs", "src/lib.rs"], [("go", RT + " fn go"), ("join", STD + " fn join__thread"), ("thread handles", "src/lib.rs impl Thread")],
     "The specification interleaves threads freely; a run is accepted when some interleaving explains it. 101 enumerated cases and random programs with up to three threads.")
prop("C15", "In-types receive every call of a function, in order, exactly once",
     "After `in f`, each call of f is delivered to every open receiver exactly once, with the arguments it was called with, in the order of the calls; `next` gives the oldest message not yet taken or none, and in-loops (`for`, `sum`, `prod`, `min`, `max`, `any`, `all`, `sift`, link) take the messages one by one and compute over them with breaks and continues as other loops do. Calls before `in f` are not seen, and receivers do not affect each other.",
     ["programs", "schedules"], "all programs that listen to functions, and all interleavings with threads that call them",
     "in-types are only loaded, never run.",
     [RT, "src/runtime/for_in.rs", STD, "src/lib.rs"], [("in", RT + " fn in_expr"), ("delivery", RT + " fn call_internal"), ("in-loops", "src/runtime/for_in.rs"), ("next", STD + " fn next")],
     "1655 enumerated cases of loops, jumps and receivers; random programs with and without threads.")
prop("C16", "A call means the function its source was bound to when it was loaded",
     "A module is put together from imports, the prelude that is handed on (`tr`), and its own functions. Each call in a function is bound when the source is loaded: by its plain name to the function of its own source, else the latest import, else the library; by `alias::name` to what the `use` declarations of its source name (functions picked by name before whole namespaces, later before earlier). It then means that function for ever, in every module it is imported into, on threads, and with the arguments lazy or mutable as that function declares. Sources whose calls find no function, or one with other arguments, or use a result that is not there, are rejected. `functions`, `call`, `call_ret`, `load`, `module`, `check` agree with that.",
     ["programs", "sources", "histories of loading"], "all sets of sources, imports, namespaces and aliases, and all orders of loading them",
     "the tests load one file, with no imports that clash.",
     ["src/module.rs", "src/ast/mod.rs", STD, "src/lib.rs", RT], [("imports", "src/module.rs fn import*"), ("use", "src/ast/mod.rs UseLookup"), ("loading at run time", STD + " fn load__source_imports, fn module__in_string_imports"), ("calling into modules", STD + " fn call, fn call_ret"), ("load", "src/lib.rs fn load_str")],
     "spec/DyonModules.tla binds and loads; its invariants say that modules are closed under calls. Enumerated uses and layers of modules, and random sets of sources by `load` and by `module`.")
prop("C17", "An error that ends the run says where it happened",
     "When a run ends with an error, the message shows a line of the statement that was running when it failed, with its number and text as in the source of the function that ran it; and where the message lists calls, these are exactly the calls that were under way, from `main` inwards, closures and functions of other modules included, each with the file it was loaded from. Calls that had returned, or that were left by `break`, `try` or an error handled before, are not listed.",
     ["programs", "sources"], "all programs that fail, at any place, in any nesting of calls, closures, loops and modules",
     "no test looks at a message.",
     [RT, "src/module.rs", STD, "src/ast/mod.rs"], [("trace", RT + " fn stack_trace, push_fn, pop_fn"), ("place", "src/module.rs fn error*"), ("ranges", "src/ast/mod.rs source_range of each expression")],
     "Dyon.tla knows the statement and the calls at every step; 15000 operator cases at the ends of four kinds of calls (quick: 1500), the cases of other properties with a `try` taken away, random programs, and modules with failing statements.")
prop("C25", "A closure prints as source text that means the same",
     "The text that `str` and the printing functions give for a closure, put into a program in place of the closure, is accepted and does the same on every call: the same observations in the same order, the same results, the same errors. Arguments, current objects, operators (with the parentheses they need), loops with labels and jumps, calls with namespaces and mutable arguments, items, links, vectors, matrices, closures inside of closures and everything else that can stand in a body is written in full; what was grabbed stands in it as the value it had, as long as that value can be written in a source at all (no secret, no NaN or infinity, nothing that is bound to the process).",
     ["programs", "inputs"], "all closures with all bodies, and all calls of them",
     "no test prints a closure.",
     ["src/write.rs", "src/ast/mod.rs", "src/grab.rs"], [("writing", "src/write.rs fn write_closure, fn write_expr"), ("grabbed values", "src/grab.rs"), ("precedence", "src/ast/mod.rs fn precedence")],
     "A first run prints the closures of a program; in a second program these texts stand for the closures, and TLC validates its run against the specification of the first. Cases of 18 families put into closures, random expression trees, random programs.")
prop("C26", "Text read with meta rules gives its tokens in order, and JSON keeps their tree",
     "For every text that follows a set of meta rules, `meta` (rules and text given as texts) and `load(meta:, file:)` (given as files) give the tokens of the text: one for each property that the rules set, in the order of the text, with its offset and length in bytes, its kind, its name and its value, between a start and an end token for each node that the rules name, so that nodes nest as in the text. A text that is against the rules gives an error. `json_from_meta_data` writes tokens as JSON with the same names, values and nesting, also when tokens or parts of them are references to variables; an array that does not hold tokens is an error, never a panic.",
     ["inputs"], "all texts of the rules, and all arrays of tokens",
     "no test reads a text with meta rules or writes JSON of tokens.",
     ["src/dyon_std/meta.rs", STD], [("tokens", "src/dyon_std/meta.rs fn parse_syntax_data, fn load_meta_file"), ("JSON", "src/dyon_std/meta.rs fn json_from_meta_data")],
     "spec/DyonMeta.tla gives text, tokens and JSON of a document; TLC checks on each that tokens nest and come in order, and compares what the implementation gave. Rules have one form (booleans, numbers, texts, three kinds of nodes in brackets) with random names.")
prop("C27", "A module tells exactly the functions it has",
     "`functions` lists the functions that a module can call, sorted by name: those of its source, those of its imports (with theirs), and the library, each once for each way it got there. For each it tells the name (with the marks of mutable arguments), whether it was loaded or is external, the type it returns, and for each argument, in order, its name, lifetime and type, as they were declared.",
     ["programs", "inputs"], "all modules with all imports, and all signatures of functions",
     "no test lists functions.",
     ["src/dyon_std/functions.rs", "src/module.rs", "src/ty.rs"], [("list", "src/dyon_std/functions.rs fn list_functions"), ("imports", "src/module.rs fn import"), ("types", "src/ty.rs fn description")],
     "spec/DyonList.tla says what a module has and how each function is told; random modules that import each other, with signatures of all types, and 14 functions of the library.")
prop("C18", "Data that is written out reads back as it was",
     "`json_string`, `save` and (but for texts and links at the top) `str` write a value as the data format says, and `load_data`, from a text or a file, reads every text of that format: for each value made of numbers, booleans, texts, vectors, options, links, arrays and objects, what is written reads back as the same value, exactly. White space and nested comments between the parts, trailing commas, quoted or bare keys, escapes, underscores in numbers and colors do not change the value, nor does laying out a written value with `fmt` (where it has no options and links); a text that is not of the format gives an error, never another value and never a panic.",
     ["inputs"], "all values and all texts",
     "no test writes or loads data.",
     ["src/dyon_std/data.rs", "src/write.rs", STD], [("reading", "src/dyon_std/data.rs fn load_data"), ("writing", "src/write.rs fn write_variable"), ("files", STD + " fn load_data__file, fn save__data_file, fn save__string_file, fn load_string__file")],
     "spec/DyonData.tla reads and writes the format, code point by code point, and TLC checks on every value used that it reads what it writes.")
prop("C19", "Values cross between Dyon and Rust unchanged, or not at all",
     "A host function declared with dyon_fn! gets each argument as the Rust value of its type, in the order they were written, whether the value was given directly or refers to variables at any depth, and what it gives back is that value in Dyon: numbers, booleans, texts, options, results, vectors, matrices, fixed-size arrays, tuples, Vec, objects of dyon_obj! (also within each other) and Rust objects. A value that does not fit the type is an error, at any depth, never a panic and never another value; Rust objects are shared between the variables that hold them, and changes through one are seen by all.",
     ["inputs", "histories"], "all values for all types, and all sequences of operations on Rust objects",
     "no test calls a host function with arguments from a script.",
     ["src/embed.rs", "src/macros.rs", "src/vec4.rs", "src/mat4.rs", RT], [("conversions", "src/embed.rs impl PopVariable, impl PushVariable"), ("declarations", "src/macros.rs dyon_fn!, dyon_obj!"), ("current objects", RT + " fn current_object")],
     "spec/DyonConv.tla says for each type what fits; its types are compiled into the harness. Every type with every value, random values and near misses, and sequences on Rust objects.")
prop("C20", "A host can call into a runtime again and again",
     "A host program that keeps one runtime and one module may run it, call functions by name with any arguments, with or without a result, and try to load further sources, in any order. Every call behaves as on a fresh runtime: it gives the function's value, complete in itself (it refers to nothing that is gone), or an error, and leaves no variables, current objects or calls behind whether it ended well or not. Calls of unknown functions, with the wrong number of arguments, or for a result that is not there are errors, and a source that is rejected leaves the module as it was.",
     ["histories", "inputs"], "all programs and all sequences of calls from the host, including those that fail",
     "the tests only run a main function once on a fresh runtime.",
     [RT, "src/lib.rs", "src/module.rs"], [("calls from the host", RT + " fn run, fn call_str, fn call_str_ret"), ("loading", "src/lib.rs fn load_str")],
     "spec/DyonHost.tla extends the evaluation machine with the host's operations; its sessions are replayed against one runtime, and after each operation the sizes of the runtime's stacks are compared. 2758 directed sessions, and random ones.")
prop("C22", "Programs mean the same whichever optional features are built in",
     "A build of the library without its default features (no threads, no dynamic loading, no files, no debug look-up), and one where threads are tasks (`async`), accept the same programs and run them with the same result: variables found by their place on the stack are those that a look-up by name finds, and a thread may start and join others however threads are made. A program that needs what was left out is refused with an error.",
     ["programs", "configurations"], "all programs, on a build without any optional feature and on one with `async`",
     "the tests run with default features only.",
     [RT, "src/lifetime/mod.rs", "src/lifetime/node.rs", "src/threading.rs", "src/ast/mod.rs"], [("place of a variable", RT + " fn item, static_stack_id"), ("places on the stack", "src/ast/mod.rs fn resolve_locals"), ("threads", "src/threading.rs spawn!, join!"), ("what the features leave out", "src/lifetime/node.rs, src/lifetime/typecheck.rs, src/ast/mod.rs cfg(feature)")],
     "The families for calls, closures, loops, errors, lazy invariants, lifetimes, types and random programs on the build without features; those for threads and messages, and random programs with threads, on the build with async.")

NA = []
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                     "technique": p["_tech"] or TV, "level": p["_level"],
                     "level_note": (p["_note"] + " " if p["_note"] else "") + "Assurance is bounded: it covers the programs that are run. Trusted: the specification, the generator's printer, the recording host functions."}
                    for p in P if p["id"] not in [n["property"] for n in NA]],
         "not_applicable": NA,
         "notes": "TLA+ specification in spec/, see DESIGN.md. No hooks in /repo are needed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
