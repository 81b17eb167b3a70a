#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
CORE = "src/core.rs"; FTH = "core.fth"

p("C01", "Stack-shuffling words move exactly the cells they document",
  "Every word that only rearranges stack cells (on the data stack, between data and return stack, or on the floating-point stack) has exactly its documented stack effect: the named operands end in the documented order, bit for bit, and every cell below them is unchanged. This holds at every depth inside the stack limits, for any cell contents and any sequence of such words, interpreted or compiled.",
  ["inputs", "programs"], "all cell values, all depths 0..64 that give the word its operands, all sequences of stack words, interpreted and inside definitions",
  "The unit tests run each word once on one or two tiny stacks; none composes words, uses deep stacks, large cells or compiled return-stack traffic.",
  [CORE, "src/float.rs", FTH],
  [("ring stacks with wrapping index arithmetic", "core.rs Stack, dup/swap/over/rot/-rot/pick/2dup/2swap/2over/nip"), ("return-stack transfer", "core.rs p_to_r/r_from/r_fetch/2>r/2r>/2r@"), ("tuck ?dup", "core.fth"), ("float stack", "float.rs fdup..fpick")],
  [("data stack", "256-slot ring with 64 usable cells", "core.rs Stack")], ["data/return/float stack contents after every word"])

p("C02", "Cell arithmetic, logic and comparison are exact 64-bit two's complement",
  "Every integer arithmetic, logical, shift, comparison and range word computes the mathematically defined 64-bit two's-complement result for all operands, wrapping silently on overflow (including the most negative number) and truncating division toward zero, with flags being exactly all-ones or zero. Division or modulus by zero never yields a value: it raises the division-by-zero exception.",
  ["inputs"], "all pairs (triples) of 64-bit cells, in particular sign and wrap boundaries; all shift counts 0..63",
  "Tests use a handful of small operands; boundaries such as min-int / -1, wrap of *, mixed signs of / mod /mod, and within are not enumerated.",
  [CORE, FTH, "src/env.rs"],
  [("wrapping_* arithmetic", "core.rs plus..slash_mod, abs, negate, lshift, rshift"), ("derived words 2* 2/ <= >= min max", "core.fth"), ("division check", "core.rs slash/p_mod/slash_mod")],
  [], ["data stack and error code after each word"])

p("C03", "Stack overflow and underflow are always detected and never imagined",
  "Whenever executing a token leaves the data, return or floating-point stack with fewer than zero or more than 64 entries, or changed what lies just below its bottom or (even transiently) just above its 64-entry capacity, the check that follows each interpreted token raises the overflow/underflow exception that belongs to that stack (data before return before control before float), unless the token itself already raised another exception. A program that keeps all stacks within 0..64 entries never gets such an exception.",
  ["programs", "histories"], "all sequences of pushes and pops of any width around both limits, by literals, words, loops and definitions, for each stack and in each combination",
  "Unit tests only pop an empty stack once per word and overflow by a few literals; transient overflow, exact limits, combinations and priority are not covered.",
  [CORE], [("canary slots at index 64 and 255 plus length tests", "core.rs Stack::overflow/underflow"), ("check order", "core.rs check_stacks"), ("check after every token", "core.rs evaluate_input; core.fth evaluate-input")],
  [("canary", "slot content that betrays an out-of-bounds write", "core.rs Stack")], ["error code after each token"])

p("C04", "Structured conditionals and indefinite loops execute as written",
  "A definition built from if/else/then, begin/until, begin/while/repeat, begin/again, case/of/endof/endcase, exit and recurse, nested in any way, executes exactly the path that the structured program text denotes for the run-time flags and selectors, consuming exactly one flag per test. The case selector is preserved for the default branch and dropped exactly once.",
  ["programs", "inputs"], "all nestings of the constructs (small ones exhaustively) and all flag/selector histories",
  "Tests have one or two fixed examples per construct; nestings, multiple while-free exits, case with zero or many arms and recursion are unbounded.",
  [CORE], [("branch compilation and back-patching via the control stack", "core.rs imm_if..imm_again, imm_case..imm_endcase"), ("branch/0branch", "core.rs branch/zero_branch")],
  [("control-flow stack", "open structures with patch addresses", "core.rs Control")], ["trace of executed marks and stack at every probe inside definitions"])

p("C05", "Counted loops visit exactly the indices Forth defines",
  "For every start, limit and step (including wrap-around and negative steps) a do, ?do, loop, +loop structure executes its body exactly for the indices defined by crossing the boundary between limit-1 and limit, ?do skips on equality, i and j deliver the current and next-outer index. leave, unloop exit and nesting leave the return stack exactly as it was before the loop.",
  ["inputs", "programs"], "all start/limit/step values (exhaustive at small cell width in the model, boundary and random values at 64 bits), all nestings with leave/unloop/exit in any branch",
  "Tests run a few short loops with small positive numbers; boundary crossing with negative steps, wrap-around, leave inside nested conditionals and j with ?do are unsettled.",
  [CORE], [("biased index representation exits on signed overflow", "core.rs _do/_qdo/_loop/_plus_loop/p_i/p_j"), ("leave through saved loop address", "core.rs leave/imm_loop/imm_plus_loop"), ("unloop", "core.rs unloop")],
  [("loop frame", "exit pointer, bias and biased index on the return stack", "core.rs _do")], ["indices seen by the body, stacks after the loop"])

p("C06", "Ill-formed control structures are rejected and leave no usable word",
  "A definition whose control-structure words are not properly nested, or that ends with an open structure, an unresolved label reference or a leave outside a counted loop, always raises the control-structure exception; a definition that failed never becomes findable and an older word with the same name stays in force. Properly nested definitions are never rejected, and after recovery compilation works as if the failed definition had not been attempted (label numbers that were given a meaning or referred to stay so until 0labels forgets them).",
  ["programs"], "all token strings over the control-structure words up to a length bound (exhaustive), plus random longer ones",
  "Tests check a dozen hand-picked malformed definitions; the space of token strings and the follow-up behaviour after a failure are not explored.",
  [CORE], [("typed control-stack entries matched on close", "core.rs imm_else..imm_plus_loop, leave_part"), ("semicolon check", "core.rs semicolon"), ("hidden flag until ;", "core.rs colon/semicolon")],
  [("control-flow stack", "typed open structures", "core.rs Control"), ("hidden", "definition not yet findable", "core.rs Word")], ["error code, compile state, name lookup afterwards"])

p("C07", "A name always means its newest completed visible definition",
  "A name is looked up case-insensitively and resolves to the most recently completed definition with exactly that spelling, whatever other names collide with it internally; already compiled code keeps the meaning it was compiled with after redefinition, and a redefinition is announced. Immediate, compile-only, postpone, tick, execute and compile, treat a word exactly as its flags prescribe (immediate words run while compiling, compile-only words are refused by the interpreter, undefined names raise the undefined-word exception).",
  ["histories", "programs"], "all histories of defining, redefining, flagging, looking up and compiling words, including names that collide in the dictionary hash and names differing in case only",
  "Tests define one or two words; hash collisions, hidden words, redefinition histories and flag combinations are not sampled.",
  [CORE], [("hash buckets with links, hidden flag, case-insensitive comparison", "core.rs Wordlist::push, find"), ("interpret/compile dispatch", "core.rs interpret_token/compile_token"), ("postpone/_postpone/compile,", "core.rs")],
  [("word list", "definitions in order with flags", "core.rs Wordlist")], ["stack effects of the resolved words, output, error code"])

p("C08", "Running a marker restores the dictionary to the moment it was made",
  "Executing a word created by marker removes the marker and every definition made after it, makes every name mean again what it meant when the marker was created, and gives back the data space used since. Definitions made before the marker keep working, and new definitions made afterwards behave as in a fresh system.",
  ["histories"], "all interleavings of defining, redefining, nested markers and marker execution",
  "One test creates and runs a marker around one word; shadowed names, nested markers, colliding names and later definitions are open.",
  [CORE], [("saved buckets and truncation", "core.rs marker/unmark, Wordlist::truncate"), ("data-space release", "memory.rs truncate")],
  [("saved dictionary state", "last word and bucket heads stored in the marker", "core.rs marker")], ["meaning of all names, here, errors after the marker ran"])

p("C09", "Words made by defining words behave as their defining word says",
  "Constants, variables, two-cell and floating-point constants and variables, created words with or without does>, fields, deferred words and user-written defining words deliver at run time exactly the value, address or action fixed by their definition and later stores, for any number of instances and any interleaving. Each instance owns its own aligned data, disjoint from every other instance and from compiled code.",
  ["programs", "histories"], "all sequences of defining words, user-defined does> words, instances, stores and executions",
  "Tests make one instance per defining word; several instances, several does> words, does> sharing, alignment after odd allots and defer chains are not covered.",
  [CORE, "src/float.rs", FTH], [("create/does> action switch", "core.rs create/does/_does/xdoes"), ("constant/p_const, fconstant", "core.rs, float.rs"), ("+field defer 2constant variable fvariable", "core.fth")],
  [("data field", "address and content owned by a word", "core.rs Word::dfa")], ["stack effects of instances, data memory"])

p("C10", "Memory words read back what was written and stay inside the data space",
  "A fetch returns the bytes most recently stored at that address by any store, move, fill or compiled-data word, overlapping moves copy as if through a buffer, and here, allot, align and the comma words advance the data-space pointer by exactly the documented amount. Any access with an address range not inside the data space, whatever the 64-bit address or length, raises the invalid-address exception without crashing the host, and such a single access changes nothing (a word made of several accesses, such as 2! or fill, stops at the first bad one).",
  ["inputs", "histories"], "all addresses (inside, straddling either end, wrapping past the top of the address space), all lengths, all interleavings of cell/byte/float/block accesses",
  "Tests store and fetch a few values at here and move small disjoint blocks; boundary, overlap and wrap-around addresses are not sampled.",
  [CORE, "src/memory.rs", "src/float.rs", "src/output.rs", FTH], [("range checks before access", "core.rs fetch/store/c_fetch/c_store/p_move; float.rs ffetch/fstore; output.rs p_type"), ("direction-aware copy", "core.rs p_move"), ("data-space pointer", "memory.rs set_here/allot/align")],
  [("data space", "64 KiB byte array with allocation pointer", "memory.rs DataSpace")], ["fetched values, here, error code"])

p("C11", "An exception clears the stacks, is reported once and leaves the system usable",
  "Whenever a word raises an exception the data, float and control stacks are emptied, the exception code can be read, the installed handler runs once, and nothing after the failing token (or failing word inside a definition when the handler ends execution) is executed. After the host resets the system, every later program behaves as it would have without the failed one, apart from definitions and memory changed before the failure.",
  ["programs", "fault_sequences"], "all faults (each exception kind) at all positions: interpreted, compiled, nested in loops and calls, while compiling, in background tasks, repeated faults",
  "Tests check the error code after single faulty words; the state left behind, abandonment of the rest of the line and behaviour after recovery are not examined.",
  [CORE, "src/exception.rs"], [("abort_with", "core.rs"), ("reset/clear_stacks", "core.rs"), ("evaluate loop stops on error", "core.rs evaluate_input")],
  [("last error", "pending exception", "core.rs last_error"), ("handler", "word run on exceptions", "core.rs handler!")], ["stacks, error code, output, later behaviour"])

p("C12", "Numbers are read and printed exactly in every supported base",
  "A token that is not a word is read as a number exactly when it is an optional base prefix, optional sign and at least one digit valid in the base (or a quoted character), and then has the denoted value modulo 2^64; otherwise, unless it is a floating-point literal, it raises the undefined-word exception. Printing in base 2, 8, 10 or 16 emits the canonical digits, right-justified to the requested width and never truncated, so that a printed number can be read back to the same cell in the same base.",
  ["inputs"], "all 64-bit cells, all bases 2..16 for reading, bases 2/8/10/16 for printing, all widths, all short token strings over digits, signs, prefixes, quotes",
  "Tests read about twenty literals and print almost none; sign/prefix combinations, boundary values, digits at the base limit and width handling are not covered.",
  [CORE, "src/parser.rs", "src/output.rs", FTH], [("prefix/sign/digit parser", "parser.rs base/sign/uint_in_base/quoted_char; core.rs evaluate_integer"), ("formatted printing", "output.rs dot_r; core.fth . h. h.r"), ("base variable", "memory.rs SystemVariables; core.fth hex decimal")],
  [("base", "current number base", "memory.rs")], ["value left by a token, text emitted"])

p("C13", "Source text is split, skipped and quoted exactly",
  "Tokens are the maximal runs of characters other than space, tab, carriage return and newline; comments end at their delimiter; char, [char], parse, word, quoted strings and printed strings deliver exactly the delimited characters and leave the input position directly behind the delimiter. This holds for every line, including empty, blank-only, unterminated and non-ASCII text, and never crashes the host.",
  ["inputs"], "all input lines over blanks, delimiters, ASCII and multi-byte characters, with the parsing words at any position including the end of the line",
  "Tests use well-formed lines; unterminated strings and comments, tabs/CR, words at end of line, adjacent delimiters and multi-byte text are not covered.",
  [CORE, "src/output.rs", FTH], [("parse_word/parse/_skip", "core.rs"), ("s\" .\" .(", "output.rs s_quote/dot_quote/dot_paren"), ("word, counted strings", "core.fth word; memory.rs put_cstr")],
  [("input buffer and index", "current line and position", "core.rs State::source_index")], ["tokens seen, strings typed, source index"])

p("C14", "Cooperative tasks run round-robin and cannot disturb each other",
  "Control passes from a task only at pause, and then to the next awake task in cyclic order, which resumes exactly where it stopped with its own stacks, whatever the other tasks did. activate starts the target at the code after it with an empty return stack, suspend and resume change only whether a task is scheduled, and invalid task numbers raise the invalid-argument exception.",
  ["schedules", "programs"], "all interleavings produced by pause/activate/suspend/resume/stop/halt over up to five tasks, from terminal and background tasks",
  "No test runs a second task at all.",
  [CORE, "src/mock_vm.rs", FTH], [("round-robin search", "core.rs pause"), ("activation", "core.rs activate"), ("per-task stacks and state", "mock_vm.rs Task"), ("halt nod stop", "core.fth")],
  [("current task, awake flags, per-task stacks/ip", "scheduler state", "mock_vm.rs VM")], ["global order of marks emitted by tasks, stacks of every task"])

p("C15", "A facility has at most one owner; waiting tasks keep yielding",
  "Between get and release of the same facility no other task's get of it completes, release by a non-owner changes nothing, a waiting task lets the others run and obtains the facility once it is free and the task is scheduled. ms returns in no task before the requested number of milliseconds has passed, and lets the other tasks run meanwhile.",
  ["schedules"], "all schedules of up to four tasks getting and releasing facilities with pauses anywhere, and all relative timings of waiting tasks",
  "No test uses get, release or ms.",
  [FTH, CORE, "src/facility.rs"], [("owner variable tested and set without an intervening pause", "core.fth get/release"), ("polling wait", "core.fth ms; facility.rs mtime")],
  [("facility variable", "owner task number or zero", "core.fth get")], ["facility variable and order of critical sections"])

p("C16", "File words keep handles, positions and contents consistent",
  "Each open file identifier denotes one file with its own position, access mode and contents until it is closed; read, write, reposition, resize, size and position act on it as on a byte file, and identifiers of other files are unaffected. Every failing request (bad identifier, mode, name length, address range or missing file) reports a non-zero result code with the documented number of results, and changes nothing.",
  ["histories", "inputs"], "all histories of create/open/read/write/reposition/resize/size/position/close/delete over several files, modes and identifiers, with valid and invalid arguments",
  "No test exercises the file words.",
  ["src/file_access.rs", FTH], [("per-task file table with slot reuse", "file_access.rs open_file/create_file/close_file"), ("argument checks", "file_access.rs"), ("result codes", "exception.rs")],
  [("file table", "open files by identifier", "file_access.rs files")], ["result codes, buffers, file contents on disk"])

p("C17", "Included source files run line by line and return to their includer",
  "Including a file interprets each of its lines exactly once and in order (line ends LF or CRLF, last line terminated or not), to any nesting depth the system allows, and then continues behind the include in the including line with the same source, as if the text had been inserted there. Source identifiers stay valid until closed, invalid ones raise the invalid-argument exception, and too deep nesting or a missing file aborts.",
  ["inputs", "histories"], "all file contents and include trees up to the depth limit, repeated includes, direct open-source/load-line/close-source histories",
  "No test loads a file; only the embedded library text is loaded.",
  ["src/loader.rs", FTH, CORE], [("load_line", "loader.rs"), ("save/restore source stack", "core.fth save-source/restore-source/included"), ("source table", "loader.rs open_source/close_source; core.rs set_source_id")],
  [("source table and line buffers", "open sources by identifier", "loader.rs")], ["effects of lines in order, source-id, source-idx, load-line#"])

p("C18", "Labels, goto and call transfer control exactly to their label",
  "Inside a definition, goto continues at its label whether the label is defined before or after it, and call runs the code at the label until exit and then continues behind the call, for any number of references to any number of labels. Label numbers out of range or defined twice raise the invalid-argument exception, and a forward reference never defined makes the definition fail.",
  ["programs"], "all arrangements of labels, gotos and calls (forward, backward, several references per label), all label numbers",
  "Tests contain a few small fixed programs; chains of several forward references, mixed forward/backward references and label reuse across definitions are open.",
  [CORE], [("forward-reference chains threaded through branch operands", "core.rs imm_label/imm_goto/imm_call"), ("unresolved check", "core.rs semicolon"), ("0labels", "core.rs imm_clear_labels")],
  [("label table, forward/resolved sets", "label state", "core.rs labels")], ["executed path, error code"])

p("C19", "The interactive shell survives every faulty line",
  "In the interactive shell loop every line is answered by its output and, if it was accepted outside a definition, the ok prompt; a line that fails is answered by the offending token and the description of the error, after which the shell accepts the next line with empty stacks in interpretation state. Any number of failing lines, including failing or missing included files, leaves it able to interpret, compile, include and run tasks as before.",
  ["fault_sequences", "histories"], "all sequences of good and failing lines, failing includes at any depth and count, faults while compiling",
  "The shell loop has no tests at all.",
  ["rtf/rtf.fth", FTH, CORE, "src/tools.rs", "src/loader.rs"], [("quit loop and (abort) handler", "rtf/rtf.fth"), ("reset", "core.rs reset"), ("source stack", "core.fth src-stack")],
  [("source stack count", "saved includers", "core.fth src-stack")], ["text printed per line, stacks after each line"])

p("C20", "Floating-point arithmetic is IEEE-754 and exact on exactly representable values",
  "Floating-point stack, store/fetch, comparison, min/max, absolute value, negation, rounding to integers and integer conversion give the exact mathematical result, with operands in the documented order; addition, subtraction, multiplication, division and integer-to-float conversion give the correctly rounded double (nearest, ties to even), also for subnormal numbers, infinities and NaN. A literal whose digits before and behind the point, power of ten and value are all exactly representable has exactly that value, and any other of ordinary size is within a few units in the last place; a literal means the same interpreted and compiled. Float memory words keep every bit pattern intact and reject addresses outside the data space.",
  ["inputs", "programs"], "all doubles and all sequences of the words on them",
  "Tests use one or two values per word with tolerance; operand order, ties, signs, rounding and compiled literals are sampled only lightly.",
  ["src/float.rs", "src/parser.rs", CORE, FTH], [("float primitives", "float.rs"), ("float literals", "core.rs evaluate_float; parser.rs fraction/uint"), ("f, fvariable fliteral f>", "core.fth")],
  [("float stack", "ring of f64", "core.rs Stack<f64>")], ["float stack bits, flags"])

p("C21", "Inspection words report the true state and change nothing",
  "The words that show the stacks, their depth, the dictionary, a word's name, body and name addresses, the source position, the current task, the error code and execution-time statistics report exactly the current state in the documented format. They do not alter any state other than the output and the documented stack effect.",
  ["histories"], "all states reachable by stack, definition, marker and error histories",
  "Only .s-like output of trivial states is tested.",
  ["src/tools.rs", CORE, "src/env.rs"], [("printing", "tools.rs dot_s/words/dot_word/dot_xtime"), ("state words", "core.rs depth/error/me/to_body/to_name/p_source_idx")],
  [], ["text emitted, state before/after"])

p("C22", "Transcendental and unit-conversion words are accurate to rounding",
  "Trigonometric, inverse trigonometric, power and unit-conversion words return the correctly scaled result within a few units in the last place, for every operand of the function's domain, with operands in the documented order and in the right quadrant; outside the domain they give NaN. Square root is correctly rounded, and pi is the double nearest to pi.",
  ["inputs"], "all finite floats",
  "Tests sample a few points with tolerances.",
  ["src/float.rs", "src/units.rs"], [("libm calls and constant factors", "float.rs, units.rs")], [], ["float stack"])

p("C23", "The line editor delivers exactly the edited line and recalls earlier ones",
  "In the interactive program the terminal shows after every keystroke exactly the text and cursor column that typing, backspace and the arrow keys denote (whole characters of any script, never bytes), keys without meaning change nothing, and the line given to the interpreter at Enter is the text shown. Up and down walk through the earlier lines, oldest reached last, and come back to the unfinished line; empty lines are not kept. The last 32 lines survive, in order, to the next session, and command-line words are interpreted before the first line is read.",
  ["inputs", "histories"], "all sequences of keystrokes over any characters, any history file",
  "The program has no tests at all.",
  ["rtf/src/term.rs", "rtf/src/main.rs"], [("key handling", "term.rs read_line"), ("history file", "term.rs Term::new, Drop"), ("delivery", "main.rs receive, main")],
  [("line, cursor, history", "UTF-8 buffer with byte position", "term.rs Term")], ["screen line and cursor after each key, output per line, history file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
