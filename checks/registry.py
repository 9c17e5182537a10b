"""Property id -> (check function, evidence level, explanation, technique, level note)."""
import groups, engine2, ghost
AI = "Abstract interpretation (intervals with attained bounds, typed memory regions) of every listed entry point from the computed invariant of the machine state, over the LLVM IR of the current sources. "
AT = "interprocedural abstract interpretation of the LLVM IR"
NOTE = "Every obligation is discharged, violated, or unproven; an unproven obligation is reported too unless the reviewed list checks/residue.json names it with the range of values it had on the reviewed tree (each entry was reviewed by reading the code), so only a new or wider unproven obligation is reported."
CHECKS = {}
def add(k, fn, expl, tech=AT, note=NOTE, level="other"): CHECKS[k] = (fn, level, expl, tech, note)

for k in ("M01", "M02", "M03", "M05", "M08", "C07"):
    add(k, groups.mem_check, AI + "Each memory access, table index, null use and assertion reachable from the entry points is one obligation.")
add("A01", engine2.a01, AI + "Each division, remainder and shift is one obligation.")
add("A02", engine2.a02, AI + "Each narrowing of a wide integer or floating-point intermediate is one obligation.")
add("S01", engine2.s01, AI + "Each use of a string that get_new_str returned is examined on the path where it returned NULL.")
TS = "typestate analysis by abstract interpretation of the LLVM IR (ghost facts carried along every path of every entry point)"
add("L01", ghost.l01, "Every access to the shared input state and every lock operation on every path of every entry point is one obligation: the guarding lock is held, locks are not nested or re-taken, nothing is held across a wait or at return.", TS, "")
add("L02", ghost.l02, "Every loop of the program thread that waits or executes statements is one obligation: with the error cell assumed non-zero, no way round the loop remains. Every single sleep is short and never starts with an error pending.", "loop and call-graph analysis of the LLVM IR with branch evaluation under the assumption of a pending error; abstract interpretation of the waiting statements", "")
add("L03", ghost.l03, "Every store to the error cell on every path of every entry point is one obligation: it does not follow a raised error on the same path.", TS, "")
import effects
add("V01", effects.v01, "On every path of every entry point that writes character or palette memory, the redraw mark is set after the last write and before an error-free return.", TS, "")
add("V02", effects.v02, "For every entry point, the set of parts of the machine (members of the state structure, images, pages, screens, palettes, strings, variables, memory) that any path can write is computed and compared with the documented set.", "effect analysis by abstract interpretation of the LLVM IR", "")
add("V03", effects.v03, "Each sprite statement is analysed with every sprite switched off (it must raise an error and write no sprite) and in any state (each write must follow a test of the same element).", TS, "")
add("V04", effects.v04, "Each drawing statement is analysed with each screen and distinct pages selected; every write to a graphics page is one obligation.", TS, "")
import memwin
add("M06", memwin.m06, "The space of addresses and lengths is covered by boxes (single values around both ends of the window and where a block ends at the window's end); every access to the memory window in every box is one obligation, and no access follows or precedes a raised error.", "abstract interpretation of the LLVM IR with the argument space partitioned into boxes", NOTE)
import files
add("R01", files.r01, "Every stream operation on every path of every statement that opens files, and of the other functions that open files, is one obligation: the stream is open, is closed once, and none is open at return.", TS, "")
add("R03", files.r03, "Every return of the load, save, append and execute statements is one obligation: RESULT was set, is not success after a failed file operation, and success implies a completed transfer and an accepted type mark.", TS, "")
add("R04", files.r04, "The sequence of transfers at known file positions is computed for saving, type testing and loading every resource type and for appending; marks, offsets, lengths and length fields are compared, as are the tables of packaged and valid resource names.", "constant propagation and trace extraction by abstract interpretation of the LLVM IR", "")
import contracts, tables
add("C01", contracts.c01, "Every read of an argument in the value stack is one obligation: the form the translator admits supplies that entry with that kind; every assertion and pointer on the same paths is one obligation; the form matcher is decided on every listed sequence of argument kinds.")
add("C02", contracts.c02, "Every error-free return of every operator, function and built-in variable with every argument form is examined for the depth of the value stack, the kind of its top entry and writes below the operands.", AT, "")
CP = "constant propagation over finite tables and domains on the LLVM IR"
add("C03", tables.c03, "Every entry of the name, identifier, form, result kind and implementation tables of every keyword is compared with the other tables and with the reviewed keyword list.", "comparison of the initialised keyword tables in the LLVM IR", "")
add("C04", tables.c04, "Every instruction kind with every operand byte is decided for the executing loop and the scanner, and every kind of token for the translator.", CP, "Statements called by the executing loop are not entered.")
add("C05", tables.c05, "Every built-in variable is presented to the translator's validator as the target of an assignment and of every output argument; what each variable's function leaves on the stack, the emitted validity checks and their effect on boundary values are decided.", CP + "; " + AT, "")
add("C06", tables.c06, "Every message, every identifier, every place that chooses a message, every value of ERR and every store of an error value on every path is one obligation.", "table comparison and " + AT, "")
import names
add("R02", names.r02, "The name check is decided on every character at every position, every length and every type prefix; the load, save, append and execute statements are decided on constant names; every call that names a file is one obligation: the name holds only constants of the interpreter, accepted text or numbers.", "constant propagation and taint (provenance) analysis by abstract interpretation of the LLVM IR")
import arrays
add("M04", arrays.m04, "Element access by name, short and long number is decided for one- and two-dimensional arrays of number and string type at boundary and extreme subscripts, declaration and first use for sizes around the free memory and around every product overflow, CLEAR, and the requests accepted by SORT and RSORT.", "constant propagation by abstract interpretation of the LLVM IR", "Representative dimensions; the sorting positions themselves are not examined (N02).")
