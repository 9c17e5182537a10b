#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

S = "source/subsystem/"; I = "source/interpreter/"

# ---------------------------------------------------------------- memory containment
prop("M01", "Drawing, map, sprite and palette commands stay inside their tables",
 "Whatever argument values a BASIC program passes, and whatever state earlier commands left, every graphics, background, sprite, character and colour command or function either reports an error, does nothing, or reads and writes only elements that exist in its fixed-size tables (graphics pages, BG screens, sprite and animation slots, character banks, palettes). No such call reads or writes before the start or past the end of a table, and none kills the interpreter through an internal assertion.",
 ["inputs", "histories"], "for every command and function of these subsystems, every accepted argument count, every argument value, every reachable value of the current page/screen/sprite state",
 "The tests call a handful of commands with a few in-range values; the guarantee is over the whole 32-bit argument range combined with every state left by other commands.",
 [S+"graphics.c", S+"background.c", S+"sprites.c", S+"resources.c"],
 [("range-checked argument fetch", I+"stack.h STACK_INT_RANGE*"), ("clamping and per-pixel clip", S+"graphics.h grp_pixel")],
 [("page selectors", "current graphics/BG/sprite screen", S+"graphics.h, background.h, sprites.h")])
prop("M02", "Text output and cursor never leave the 32x24 console and panel grids",
 "Every way of producing text or moving the cursor (printing strings and numbers, locating, colouring, erasing, reading the screen back, panel text, key labels, prompts and typed input) touches only character cells inside the visible grid of the console or panel, wrapping at the right edge and scrolling at the bottom. Out-of-range coordinates are rejected or ignored; they are never used to reach memory outside the grid, and never abort the interpreter.",
 ["inputs", "histories"], "for every text command, every argument value, every cursor position reachable by any history of text output",
 "Tests print short strings from a few positions; wrap, scroll and the last row/column interplay with every prior cursor state.",
 [S+"console.c", S+"panel.c", S+"input.c"],
 [("cursor advance with wrap and scroll", S+"console.c con_put/con_advance"), ("argument range checks", S+"console.c, panel.c")],
 [("cursor", "console x/y and previous x/y", S+"console.h")])
prop("M03", "String building never exceeds a string's fixed 256-character storage",
 "Whatever strings and numbers a program combines (concatenation, repetition, slicing, replacement, conversion, screen and tile read-back, typed input, DATA, clock strings), the result is either at most 256 characters stored within the string's own storage or an error is reported. Searching and slicing never read characters outside the source string.",
 ["inputs"], "for every string operator, function and command, every operand length 0..256 in every storage width, and every numeric argument",
 "The tests use short literals; the limits are only reached by combinations of lengths and offsets.",
 [I+"strfuncs.c", I+"strs.c", I+"operators.c", S+"console.c"],
 [("length checks before copy", I+"strfuncs.c, operators.c"), ("capacity constant MAX_STRLEN", I+"strs.h")])
prop("M04", "Array access outside the declared dimensions is always rejected",
 "An array element is read, written, sorted or passed on only when every index lies inside the corresponding declared dimension; anything else is reported as an error. Creating an array never hands out storage beyond the array memory: a size that is negative or too large is reported as an error. Two arrays never share storage. CLEAR forgets every array and makes the whole array memory available again.",
 ["inputs", "histories"], "for every array shape and every index value, including shapes whose element count overflows",
 "Tests declare a few small arrays and index inside them; the guarantee covers all dimension/index products.",
 [I+"arrays.c", I+"vars.c", S+"variables.c"],
 [("per-dimension comparison before address computation", I+"arrays.c get_arr_entry*"), ("memory budget check", I+"arrays.c get_new_arr*")])
prop("M05", "A damaged or hostile file cannot write outside its destination",
 "When a program, resource, package or compressed file is loaded or appended, every length, count or offset taken from the file (or from the file's size) is checked against the destination's capacity before it controls how much is read, copied, unpacked or later indexed. A file that is too short, too long, or inconsistent makes the load fail and is never treated as a success with partial data lengths.",
 ["inputs", "fault_sequences"], "for every file content and size, and every point at which a read can fall short",
 "Tests load a few well-formed files; the space of malformed headers and truncated files is unbounded.",
 [S+"resources.c", I+"program.c", "source/extension/compress.c"],
 [("header checks", S+"resources.c load_program, check_load_file"), ("size clamp on append", S+"resources.c cmd_append")])
prop("M06", "With memory safety on, raw memory commands stay inside the allowed window",
 "While the program's memory-safety switch is on, the raw memory commands and functions (peek, poke, copy, fill in every width) touch only addresses inside the allocated extension block, for every address, length and access width, including accesses that would straddle its end; any other request is reported as an error before anything is read or written.",
 ["inputs"], "for every address, value, length and access width, with the safety switch on",
 "No test exercises addresses near the block boundaries or lengths that overflow.",
 ["source/extension/sbc_memory.c", "source/extension/sbc_blockalloc.c"],
 [("address window comparison before dereference", "source/extension/sbc_memory.c")])
prop("M07", "No program text or typed line can overrun the tokenizer's fixed tables",
 "However long, deeply nested or malformed a line of program text is, tokenizing it either succeeds within the tokenizer's fixed-size token, argument and type tables and the caller's output buffer, or reports an error. Malformed text (stray operators, unbalanced brackets, missing line ends) never reads before or after the text.",
 ["inputs", "programs"], "for every byte sequence presented as program text or direct command",
 "Tests tokenize a few dozen short well-formed lines.",
 [I+"tokens.c", I+"program.c"],
 [("table capacity checks", I+"tokens.c")])
prop("M08", "Keyboard, touch and function-key input never index outside their tables",
 "Every key code, touch coordinate, key identifier and buffered character delivered by the window or requested by a program is mapped through the keyboard and panel tables only with positions that exist in them, whichever keyboard is shown and whichever keys are held; codes with no key are ignored. The typed-character ring buffer is only indexed modulo its size.",
 ["inputs", "histories", "schedules"], "for every touch coordinate, key code, keyboard type and history of key events",
 "Tests cover a few keys on one keyboard.",
 [S+"panel.c", S+"input.c", "source/main.c"],
 [("key map lookups", S+"panel.c press_key"), ("ring index arithmetic", S+"input.c")])

# ---------------------------------------------------------------- arithmetic
prop("A01", "No arithmetic in a program can kill the interpreter",
 "For every operand value, division and remainder are performed only when the divisor is non-zero and the quotient is representable; otherwise an error is reported or the operation is skipped. No BASIC statement, operator, function or per-frame update can end the process through a division trap.",
 ["inputs", "histories"], "for every operator, function, command and frame step that divides, and every operand value",
 "Tests divide a few ordinary numbers; the trapping pairs are isolated points in a 2^64 input space.",
 [I+"operators.c", I+"mathptc.c", S+"sprites.c", S+"background.c", S+"graphics.c"],
 [("zero test before division", I+"operators.c, mathptc.c")])
prop("A02", "Out-of-range numeric results are reported, never wrapped",
 "When adding, subtracting, multiplying, dividing or raising numbers gives a value outside the fixed-point range, the program gets an overflow (or other) error instead of a wrapped or undefined value. A wide or floating-point intermediate result is stored as a BASIC number only after a range test that every out-of-range value fails, including infinities and not-a-number.",
 ["inputs"], "for every pair of operand values of the numeric operators and every argument of the functions computing through wide or floating-point intermediates",
 "Tests sample a few sums and products.",
 [I+"operators.c", I+"mathptc.c"],
 [("overflow check on 64-bit result", I+"operators.c")])

# ---------------------------------------------------------------- contracts
prop("C01", "Commands and functions use only the arguments their syntax admits",
 "For every accepted form of every command and function, the implementation reads only argument positions that this form supplies, and treats each one as the kind of value (number, string, or assignable variable of that kind) that the form guarantees. Consequently no accepted statement makes the interpreter abort or misread a number as a string.",
 ["programs", "inputs"], "for every command and function, every accepted argument count and kind combination",
 "Tests run only some commands with one or two of their accepted forms.",
 [I+"tokens.c", I+"runner.c", S+"*.c"],
 [("format tables", I+"tokens.c cmd_format/func_format"), ("checked stack access", I+"stack.h")])
prop("C02", "Expression evaluation consumes its operands and yields one typed value",
 "Each operator and function removes exactly the operands it was given and leaves exactly one value of its declared kind whenever it finishes without an error, and each built-in variable leaves exactly one value. The evaluation stack never underflows or overflows for an accepted expression.",
 ["programs", "inputs"], "for every operator, function and built-in variable, every accepted operand count, every path to a normal return",
 "Tests check a few results but not the stack on every path of every function.",
 [I+"operators.c", I+"mathptc.c", I+"strfuncs.c", S+"sysvars.c"],
 [("push/pop helpers", I+"stack.h"), ("return type table", I+"tokens.c func_return")])
prop("C03", "Every keyword has one consistent identity across all interpreter tables",
 "Each command, function, operator and built-in variable keyword resolves to its own implementation, argument form, result kind and listing name: the name list, identifier list, form list and implementation list agree entry by entry and have the same length, and no entry is missing. Keywords whose meaning is special-cased during translation or execution refer to that same keyword.",
 ["programs"], "for every keyword of the language",
 "Tests use a subset of the keywords.",
 [I+"tokens.c", I+"runner.c", I+"ptc.h"],
 [("parallel tables", I+"runner.c, tokens.c")])
prop("C04", "All consumers of compiled code agree on the length of every instruction",
 "For every instruction kind and operand byte, the executing loop and the scanner that searches for matching block ends advance by the same number of bytes as the translator emitted, so execution and block skipping always land on instruction boundaries.",
 ["programs"], "for every instruction kind and every operand byte",
 "Tests compile and run a few short programs.",
 [I+"runner.c", I+"program.c", I+"tokens.c"],
 [("instruction length arithmetic", I+"runner.c _run, program.c bc_scan_pair")])
prop("C05", "Read-only built-in variables can never be modified by a program",
 "Only the documented writable built-in variables (icon page limits and selection, tab width, memory string, memory-safety switch) accept assignment or appear as an output argument; every other built-in variable is rejected there and keeps the value the system maintains. A value assigned to a writable one takes effect only after its validity check.",
 ["programs", "inputs"], "for every built-in variable and every statement form that stores into a variable",
 "Tests assign to one or two built-in variables.",
 [I+"tokens.c", I+"runner.c", S+"sysvars.c"],
 [("assignable-variable classification", I+"tokens.c"), ("validators", I+"runner.c ptc_sysvars_valid")])
prop("C06", "Every error condition has its own message and is reported as itself",
 "Each error the interpreter can raise has exactly one message, distinct from all others, and the message shown for an error is the one that belongs to it. No code raises an error value that has no message.",
 ["programs"], "for every error value raised anywhere",
 "Tests compare a few error codes, never the messages.",
 ["source/error.c", "source/error.h"],
 [("message table indexed by error", "source/error.c")])
prop("C07", "The call stack reports overflow and underflow instead of corrupting memory",
 "Nesting subroutine calls and loops beyond the fixed depth, and returning or looping without a matching call or loop, are reported as errors; no history of subroutine calls, loops and returns reads or writes outside the call stack.",
 ["programs", "histories"], "for every sequence of subroutine calls, loops, returns and jumps",
 "Tests nest two or three levels.",
 [I+"flow.c"],
 [("depth test before push/pop", I+"flow.c")],
 [("call depth", "number of active calls and loops", I+"stack.h call_stack")])

# ---------------------------------------------------------------- strings / resources
prop("S01", "Running out of strings is reported as out of memory, never dereferenced",
 "When no free string is available, every operation that needs a new string reports an out-of-memory error and leaves existing strings and variables untouched; it never uses the missing string.",
 ["programs", "histories"], "for every operation that creates a string, in every state of the string pool",
 "No test exhausts the string pool through each of the creating operations.",
 [I+"strs.c", I+"strfuncs.c", I+"operators.c", S+"sysvars.c", S+"resources.c", S+"background.c", S+"console.c"],
 [("null result of string allocation", I+"strs.c get_new_str")])
prop("R01", "Every file or directory opened is closed exactly once on every path",
 "Every file or directory the interpreter opens is closed exactly once before the operation ends, on every path including each failure, and is never used after being closed or when opening failed.",
 ["fault_sequences", "inputs"], "for every path through every operation that opens a file or directory, for every subset of failing calls",
 "Tests exercise the success path and one or two failures; a leak shows only after many failures.",
 [S+"resources.c", I+"program.c", S+"sysvars.c", "source/main.c", S+"console.c", "source/extension/compress.c"],
 [("close on every return", S+"resources.c FILE_* macros")])
prop("R02", "Programs can only name files inside the program folder",
 "A file name supplied by a BASIC program reaches the file system only after it has been accepted by the name check (at most eight letters, digits or underscores, with an optional known resource type), so no program can read or write a file outside the interpreter's program folder. No other part of the interpreter opens files under a name computed by a program.",
 ["inputs", "programs"], "for every string a program can pass to any loading, saving, appending or executing statement",
 "Tests load two or three fixed names.",
 [S+"resources.c", I+"runner.c", I+"program.c"],
 [("resource name validation", S+"resources.c verify_resource_name")])
prop("R03", "RESULT always tells whether the last file operation succeeded",
 "After every load, save, append or execute statement that got as far as touching a file, the result variable reflects whether that operation succeeded: it is success only if the complete operation succeeded, and it is set on every path.",
 ["fault_sequences", "inputs"], "for every path through the file statements, every failing call",
 "Tests never make individual file calls fail.",
 [S+"resources.c", I+"runner.c"],
 [("result assignment", S+"resources.c cmd_load/cmd_save/cmd_append")])
prop("R04", "Save and load agree on format, type mark and size for every resource type",
 "For every resource type that can be saved, the saved file starts with the type mark that loading and type checking expect and carries exactly the number of bytes that loading that type reads, at the offset where loading reads them. The packaged-resource list, the valid type list and the size table describe the same resources.",
 ["inputs", "configurations"], "for every resource type and both container formats",
 "Tests round-trip at most one type.",
 [S+"resources.c"],
 [("type mark and size tables", S+"resources.c internal_type_str, resource_size, package_resources, valid_resource_types")])

# ---------------------------------------------------------------- concurrency / control
prop("L01", "State shared by the window and the program is only touched under its lock",
 "The typed-character buffer and the touch state, which the window thread writes while the program thread reads, are accessed only while their lock is held; every lock taken is released on every path, never taken twice by the same thread, and never held across a wait or another lock.",
 ["schedules"], "for every interleaving of the window thread and the program thread",
 "Tests are single-threaded.",
 [S+"input.c", S+"panel.c", "source/main.c", "source/system.c"],
 [("touch and key-buffer mutexes", S+"input.h")])
prop("L02", "Break and shutdown interrupt every waiting or looping statement",
 "Every statement that can wait for time, frames, keys or touches, and the main execution loop, checks for a pending break, shutdown or error on every iteration and stops when there is one, so that no waiting statement keeps the program thread after a break or shutdown was requested.",
 ["schedules", "programs"], "for every waiting statement and every moment at which break or shutdown is requested",
 "Tests never request a break while a statement waits.",
 [S+"sysvars.c", S+"input.c", I+"runner.c", I+"flow.c", "source/system.c"],
 [("pending error test in wait loops", S+"input.c, "+I+"runner.c")])
prop("L03", "A raised error stops the program; no later step clears or replaces it",
 "Once a statement has raised an error, break or shutdown, the rest of that statement neither clears it nor replaces it with another one, and state that the statement had temporarily switched (variable tables, execution position) is restored. Only starting or continuing a program clears an error.",
 ["programs", "inputs"], "for every statement and every path on which an error is raised inside it",
 "Tests check single errors raised at the end of a statement.",
 [I+"runner.c", I+"flow.c", "source/system.c", S+"console.c"],
 [("error propagation checks", I+"flow.c, system.c")])

# ---------------------------------------------------------------- visible state
prop("V01", "Changing characters or colours always marks them for redraw",
 "Every statement that changes character images or palette colours marks the changed character bank or palette for redrawing before the statement completes normally, so the display never keeps showing old images or colours.",
 ["programs", "inputs"], "for every statement that writes character or palette memory and every path through it",
 "No test looks at the redraw marks.",
 [S+"resources.c", S+"graphics.c", S+"panel.c", "source/system.c"],
 [("redraw flags", S+"resources.h regen_chr, regen_col")])
prop("V02", "Each statement changes only the part of the machine it is documented to change",
 "Graphics statements change only graphics pages and graphics settings, BG statements only BG screens and layers, sprite statements only sprites, console statements only the console, panel statements only the panel, and so on; functions and operators that only compute or query change no subsystem state at all (other than random and collision state where documented).",
 ["programs", "inputs"], "for every statement, function and operator, every path",
 "Tests look at the intended effect, never at the absence of other effects.",
 [S+"graphics.c", S+"background.c", S+"sprites.c", S+"console.c", S+"panel.c", I+"mathptc.c", I+"strfuncs.c"],
 [("per-subsystem state structs", "source/system.h")])
prop("V03", "Sprite statements on a sprite that is not set up are rejected",
 "Statements that move, rotate, scale, set variables or collision data of a sprite, given the number of a sprite that is not currently set up, report an error and leave the sprite table unchanged.",
 ["inputs", "histories"], "for every such statement, every sprite number and every argument",
 "Tests use only sprites that were set up.",
 [S+"sprites.c"],
 [("active flag test", S+"sprites.c")])
prop("V04", "Drawing affects only the selected draw page, never another page",
 "Every drawing statement writes pixels only to the draw page currently selected for the current screen; the other pages, including the source page of a copy, are unchanged.",
 ["inputs", "histories"], "for every drawing statement, every argument and every page selection",
 "Tests look at page 0 after drawing to page 0.",
 [S+"graphics.c"],
 [("draw page lookup", S+"graphics.c grp_drawpage")])

# ---------------------------------------------------------------- not decidable by this family
NA = {}
def nap(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech); NA[id] = reason

nap("N01", "Numeric results equal the exactly rounded fixed-point result",
 "For every operand, arithmetic operators and numeric functions return the value defined by the 20.12 fixed-point format (exact or truncated as the original machine does), and converting a number to text and back yields the same number.",
 ["inputs"], "for every operand value", "Tests check a few dozen values.",
 [I+"mathptc.c", I+"operators.c"], [("fixed-point arithmetic", I+"mathptc.c")],
 "equality of computed numeric values over 2^32..2^64 operands is a runtime-value property; no structural rule is a necessary and sufficient part of it beyond overflow reporting (A01, A02)")
nap("N02", "SORT and RSORT leave the array ordered and permute companions alike",
 "After sorting, the sorted range is in ascending (descending) order, is a permutation of its previous contents, and every companion array was permuted identically; elements outside the range are untouched.",
 ["inputs"], "for every array content, range and companion list", "Tests sort one or two short arrays.",
 [I+"arrays.c"], [("quick sort with parallel swaps", I+"arrays.c")],
 "the order of array contents after a data-dependent recursive sort cannot be bounded by a sound static argument in reach; index containment is decided by M04")
nap("N03", "Compressing and decompressing returns the original bytes",
 "For every byte sequence and compression setting, decompressing the compressed form returns exactly the original bytes.",
 ["inputs"], "for every byte sequence and cache-bit setting", "Tests compress a few buffers.",
 ["source/extension/compress.c"], [("block encoder and decoder", "source/extension/compress.c")],
 "round-trip equality over arbitrary data is a functional property of two loops; only containment of the decoder (M05) is structural")
nap("N04", "The picture shown equals the machine state",
 "Every frame shows exactly the console, BG, sprite and graphics contents in priority order with the current palettes and offsets.",
 ["histories"], "for every machine state", "No test renders a frame.",
 ["source/graphics/pc/display_pc.c", "source/graphics/pc/tilemap.c", "source/graphics/pc/sprite.c"], [("frame composition", "source/graphics/pc/display_pc.c")],
 "pixel-level equality of rendered output is a runtime property that also depends on the SFML library and shaders; only redraw marking (V01) is decided")
nap("N05", "Waiting statements wait for the requested number of frames",
 "A wait or frame-synchronisation statement returns after the requested number of frames have elapsed, neither earlier nor much later.",
 ["schedules"], "for every requested delay and every load", "Tests cannot control time.",
 ["source/system.c", "source/timers.c"], [("frame counter", "source/timers.c")],
 "timing is not visible in the shape of the code; interruption of waits is decided by L02")
nap("N06", "Sprite collision answers agree with the geometry of the sprites",
 "Collision queries report a hit exactly when the scaled collision areas (swept by the relative motion) of two enabled, mask-matching sprites overlap.",
 ["inputs", "histories"], "for every pair of sprites", "Tests check a few pairs.",
 [S+"sprites.c"], [("collision test", S+"sprites.c")],
 "geometric correctness over arbitrary coordinates is a numeric property; table containment of the same code is decided by M01")
nap("N07", "Jumps, loops and DATA reads follow program order semantics",
 "A jump continues exactly at the named label's line, a loop body runs exactly the documented number of times, and READ returns DATA items in program order after any RESTORE.",
 ["programs", "inputs"], "for every program", "Tests run a few short programs.",
 [I+"flow.c", I+"label.c", I+"data.c"], [("label table and instruction index", I+"label.c")],
 "the semantics of whole programs is a history property; the structural parts (instruction lengths, stack discipline, error reporting) are C04, C07 and L03")
nap("N08", "Expressions are evaluated with the documented operator precedence",
 "Every expression groups its operators by the documented precedence and left-to-right order, with parentheses overriding.",
 ["programs"], "for every expression", "Tests evaluate a few dozen expressions.",
 [I+"tokens.c"], [("priority table and shunting loop", I+"tokens.c")],
 "what a correct grouping is depends on unbounded token sequences and a stack machine's run-time state; only the consistency of the tables it uses is decided (C03)")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
