#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I="source/interpreter/"; S="source/subsystem/"; E="source/extension/"

prop("P01","Numeric expressions evaluate as 20.12 fixed-point BASIC arithmetic",
 "For every well-formed numeric expression (literals, &H/&B literals, variables, + - * / %, unary -, NOT, !, AND/OR/XOR, the six comparisons, parentheses, ABS/SGN/FLOOR/RAD/DEG/SQR/SIN/COS/TAN/ATAN/EXP/LOG/POW/PI) the interpreter's result equals 20.12 fixed-point evaluation under the BASIC operator priorities and left associativity. When an intermediate result does not fit, a divisor is zero, or a logarithm's argument is not positive, evaluation stops with the corresponding overflow / divide-by-zero / illegal-function error and the target variable keeps its previous value.",
 ["inputs","programs"],"every expression tree over the numeric operators and functions with operand values over the whole representable range, including the extremes, and every way of writing it down (minimal or redundant parentheses, spacing, literal radix)",
 "test_math and test_int_math check a few dozen hand-written expressions; priority/associativity combinations and values near the overflow limits are unbounded.",
 [I+"operators.c",I+"mathptc.c",I+"tokens.c",I+"runner.c"],
 [("operator priorities and shunting-yard evaluation order","tokens.c tok_prio/tok_eval"),("range check on the 64-bit intermediate of + - * /","operators.c op_add..op_div"),("function table","mathptc.c")],
 ["value of the assigned variable after the program runs","error code of the run"])

prop("P02","String operators and functions compute the documented text",
 "For all argument values, string concatenation, repetition (string*number), the six string comparisons, and LEN, ASC, CHR$, LEFT$, RIGHT$, MID$, INSTR, SUBST$, HEX$, STR$ and VAL return exactly the text or number that a plain sequence-of-characters model gives, whatever the origin of the operand (literal, variable, array element, temporary). Results longer than 256 characters and arguments outside the documented ranges are reported as an error, and never produce text.",
 ["inputs","programs"],"every combination of string contents (all 256 character codes, lengths 0..256), numeric arguments in and out of range, nesting of calls, and operand origin",
 "test_strs/test_int_func/test_int_operator check single calls with short ASCII text; boundary lengths, out-of-range positions and nested temporaries are not reached.",
 [I+"strfuncs.c",I+"operators.c",I+"strs.c"],
 [("per-function argument checks","strfuncs.c func_*"),("length limit","strs.c str_concat, operators.c op_add/op_mult"),("comparison","strs.c str_comp/str_lex")],
 ["value of string/number variables after the program runs","error code of the run"])

prop("P03","Strings behave as immutable values and string storage never leaks",
 "Over any history of string assignments between variables, array elements, temporaries, literals, READ, SWAP, function arguments and re-run programs, every string variable and array element always holds exactly the value last assigned to it: changing one never changes another. String storage is reclaimed as soon as no variable or element refers to it, so a program whose live strings fit in the string table can run indefinitely without failing for lack of string storage.",
 ["histories","programs"],"all sequences of string-manipulating statements, including those that end in a run-time error and are followed by another program on the same system",
 "Tests execute a few statements each on a fresh system; aliasing and reference-count leaks need long histories.",
 [I+"strs.c",I+"operators.c",I+"strfuncs.c",I+"data.c",I+"runner.c",S+"variables.c",S+"console.c"],
 [("reference counts","strs.c get_new_str, stack.h value_str, operators.c op_assign")],
 ["values of all string variables/elements","number of string slots in use compared with the number of referenced strings"],
 state=[("uses","number of references to a dynamic string","strs.h struct string")])

prop("P04","Variables and arrays are a faithful name-to-value store",
 "After any history of assignments, DIMs, array reads/writes and CLEARs, each scalar, each number array, and each string array (identified by its name and its type) holds the value last stored at that name and index, and unassigned ones read as 0 or the empty string. An index outside the declared bounds, a second DIM of the same array, and exhaustion of variable or array memory are reported as errors and leave every other variable and element unchanged.",
 ["histories","programs","configurations"],"all sequences of operations over any set of names (colliding hashes, names differing by one character or by type only), array shapes and indices, and all table sizes, up to and beyond capacity",
 "test_vars/test_arrs/test_int_vars use a handful of names and in-range indices; hash collisions, table-full behaviour and boundary indices are not enumerated.",
 [I+"vars.c",I+"arrays.c",I+"runner.c",I+"operators.c"],
 [("hash table with probing","vars.c get_var"),("bounds checks","vars.c get_arr_entry*"),("array allocator","arrays.c get_init_new_arr")],
 ["values read back by the program and by the variable lookup API","error code"])

prop("P05","Control flow executes statements in BASIC order",
 "For every program built from assignments, IF/THEN/ELSE (with labels or statements), GOTO, GOSUB/RETURN, ON..GOTO/GOSUB, FOR/NEXT (any start, limit and positive, negative, fractional or omitted STEP, nested or left early), END and STOP, the sequence of executed statements and the final variable values equal those of a reference interpreter that follows the language rules. A RETURN without GOSUB, NEXT without FOR, jump to a missing label, or too deep nesting is reported as that error instead of executing anything else. A line that does not compile is reported when it is reached, nothing of it is executed, and it does not disturb other lines.",
 ["programs"],"all structured and unstructured combinations of those statements, one or several statements per line, with any nesting",
 "test_int_code exercises about twenty fixed small programs; combinations of nesting, early exits, zero-trip loops and multi-statement lines are unbounded.",
 [I+"flow.c",I+"runner.c",I+"tokens.c"],
 [("call stack","flow.c cmd_for/cmd_next/cmd_gosub/cmd_return"),("IF/ELSE/line scanning","flow.c, runner.c"),("first-of-line NEXT search","flow.c, program.c bc_scan")],
 ["trace string accumulated by the program","final variables","error code"])

prop("P06","Compilation is meaning-preserving and within its size bound",
 "Running a program gives the same output, variables and error whichever optional compile-time optimisations (label-free conditionals, numbered variables) are enabled and however the source is laid out (letter case of keywords, extra blanks, comments and blank lines, ? for PRINT). The compiled code of any accepted program never exceeds twice the size of its source.",
 ["programs","configurations"],"all accepted programs times all combinations of compile options and layout variations",
 "test_tokens compares bytecode of fixed snippets; the equivalence of options and layouts over arbitrary programs is a relation between two runs that no test makes.",
 [I+"tokens.c",I+"runner.c",I+"vars.c",I+"program.c"],
 [("bytecode generation and options","tokens.c tok_code/tokenize_full"),("documented size assumption","tokens.h header comment")],
 ["variables, console text, error code of both runs","bytecode size"])

prop("P07","Labels resolve to exactly the line that declares them",
 "For any set of up to 2048 distinct labels in a program, a jump, DATA pointer or string-valued label reference reaches the declaration of exactly that label, irrespective of the other labels' names, their number, and their order. A reference to an undeclared label is reported as missing, and declaring a label twice or more labels than the limit is reported (when compiling in strict mode, otherwise when that line is reached).",
 ["inputs","programs","configurations"],"all sets of label names (lengths 1..16, colliding hashes, common prefixes), table sizes and lookups of both present and absent names",
 "test_label inserts a handful of labels; collisions and full tables are not exercised.",
 [I+"label.c",I+"flow.c",I+"tokens.c",I+"program.c"],
 [("label hash table","label.c add_label/find_label/search_label"),("table size estimate","program.c calc_min_bytecode")],
 ["index returned for a label","statement reached by GOTO/GOSUB/ON/RESTORE"])

prop("P08","DATA is read in program order with correct values",
 "READ delivers the items of all DATA statements one by one in source order, numbers with their fixed-point value and strings with their exact text, independent of how items are split over DATA statements, lines and READ statements; RESTORE label continues with the first item after that label. Reading beyond the last item, or an item that is not a number (also texts that only start like one, such as 1-2 or 1.2.3) into a number, is reported as an error and not as a value.",
 ["programs","histories"],"all layouts of DATA items (numbers of every written form, quoted and unquoted text, empty items) and all interleavings of READ and RESTORE",
 "test_int_code reads a few fixed lists; layouts times access sequences are unbounded.",
 [I+"data.c",I+"tokens.c",I+"strs.c"],
 [("data cursor","data.c cmd_read/find_data/cmd_restore"),("DATA tokenizer state machine","tokens.c")],
 ["variables filled by READ","error code"])

prop("P09","Any source text is run or rejected without corrupting the interpreter",
 "Given any text as a program, the interpreter either runs it or reports a compile or run-time error; it never crashes, trips an internal assertion, or touches memory outside its own objects (for programs that use direct memory access: with MEMSAFE on), and it stops when it is interrupted. After any such program the same system still runs a further correct program correctly.",
 ["programs","inputs","histories"],"all program texts: grammar-derived programs over every command, function, operator and system variable with arbitrary argument values, counts and types; mutations of valid programs; token soups and random bytes",
 "The tests use only well-formed programs plus a few specific error programs.",
 [I+"tokens.c",I+"runner.c",I+"operators.c",S+"*.c",E+"*.c"],
 [("argument-sequence validation","tokens.c tok_test/check_cmd"),("range checks in each command","subsystem/*.c"),("deferred compile errors","tokens.c/runner.c BC_ERROR")],
 ["AddressSanitizer/bounds reports, signals, assertion failures","result of a follow-up program"])

prop("P10","Number/text and character-set conversions are exact and consistent",
 "Every representable number prints as its decimal value to at most three fractional digits (never more than 1/1000 away, without trailing zeros), reading that text back through VAL, INPUT or a program literal yields the number the text denotes, and all of these agree with each other, as do hexadecimal and binary notations; VAL of any other text is the value of its longest leading part that is a number. Each of the 256 character codes survives conversion to its 16-bit display form and back unchanged, and distinct codes stay distinct.",
 ["inputs"],"all 2^32 representable numbers, all numeric texts up to the accepted length, all 256 / 65536 character codes",
 "test_strs converts about a dozen numbers.",
 [I+"strs.c",I+"strfuncs.c",I+"tokens.c",S+"console.c"],
 [("fixp_to_str / str_to_number / u8_to_num","strs.c"),("to_wide / to_char tables","strs.c")],
 ["conversion API results","STR$/VAL/HEX$/PRINT/literals in programs"])

prop("P11","The text console is a faithful 32x24 terminal",
 "After any sequence of PRINT (with comma, semicolon and trailing separators), LOCATE, COLOR, CLS and TABSTEP changes, every one of the 32x24 cells shows the character and colours that a plain terminal model gives (wrapping at column 32, scrolling up one line at the bottom, comma advancing to the next tab stop), and CSRX, CSRY and CHKCHR report that same state. Values out of range are ignored or reported and change no cell.",
 ["histories","inputs"],"all sequences of console commands with any text, lengths that wrap or scroll, and any position/colour/tab arguments",
 "test_console prints a few fixed strings.",
 [S+"console.c",S+"sysvars.c"],
 [("cursor/scroll/tab logic","console.c con_puts/con_putn/con_newline/con_scroll/cmd_print"),("LOCATE/COLOR/CLS/CHKCHR","console.c")],
 ["console text and attribute arrays","CSRX/CSRY/CHKCHR values"])

prop("P12","Background layers store, copy and report tiles exactly",
 "After any sequence of BGPAGE, BGPUT, BGFILL, BGCOPY, BGCLR, BGCLIP and BGOFS, BGREAD at every coordinate of every layer of both screens returns the tile (character, palette, horizontal and vertical flip) that a 64x64 grid model gives, in all of its written forms; operations on one layer or screen change no other. Coordinates off the map wrap for single tiles and clamp for rectangles, and BGOFS scrolls reach exactly their target after the given number of frames with BGCHK true meanwhile.",
 ["histories","inputs"],"all sequences of BG commands with rectangles of any size, order and overlap, both tile notations, and any frame counts",
 "test_background checks a few single commands.",
 [S+"background.c",S+"resources.c"],
 [("tile addressing","background.h bg_index"),("fill/copy loops","background.c cmd_bgfill/cmd_bgcopy"),("scroll interpolation","background.c offset_step")],
 ["BGREAD/BGCHK results","screen memory"])

prop("P13","Graphics pages hold exactly the pixels the drawing commands define",
 "After any sequence of GPSET, GLINE, GBOX, GFILL, GCLS, GCIRCLE, GPAINT, GCOPY, GCOLOR, GDRAWMD and GPAGE, every pixel of every graphics page equals a plain 256x192 pixel-array model clipped at the page border (for lines and circles: the pixels of a connected line/circle joining the given points), and GSPOIT reports it; drawing on one page changes no other page. In XOR mode drawing the same shape twice restores the page.",
 ["histories","inputs"],"all sequences of drawing commands with coordinates inside, across and outside the page, any colours, pages and draw modes",
 "test_graphics draws a few fixed shapes.",
 [S+"graphics.c"],
 [("pixel addressing and clipping","graphics.c grp_index/grp_pixel"),("shape algorithms","graphics.c cmd_gline/cmd_gbox/cmd_gfill/cmd_gcircle/cmd_gpaint/cmd_gcopy")],
 ["all pixels of the four pages","GSPOIT results"])

prop("P14","Sprite state and animation follow their commands frame by frame",
 "After any sequence of SPSET, SPCLR, SPPAGE, SPCHR, SPOFS, SPANGLE, SPSCALE, SPANIM, SPHOME, SPSETV and elapsed frames, SPREAD, SPCHK, SPGETV and the rendered attributes of each of the 100 sprites of each screen equal those of an independent model: timed moves, rotations and scalings reach exactly their target after exactly the given number of frames, animations cycle through their characters at the given rate and number of loops, and each sprite evolves independently of all others.",
 ["histories"],"all sequences of sprite commands on any subset of sprites of both screens interleaved with any number of frame steps",
 "test_sprite sets one or two sprites; the interaction of timed operations of many sprites is not tested.",
 [S+"sprites.c"],
 [("per-frame step","sprites.c step_sprites"),("commands","sprites.c cmd_sp*")],
 ["SPREAD/SPCHK/SPGETV results","sprite attribute structure after each frame"])

prop("P15","Sprite collision queries agree with geometry",
 "SPHITSP and SPHIT report a hit exactly when the hit rectangles of the two sprites (as set by SPCOL, scaled with the sprite when SPCOL asked for it, and swept by the velocity of SPCOLVEC or, without one, of a running SPOFS move, relative to each other) touch and their group masks intersect, ignoring inactive sprites; the relation is symmetric, invariant under translation, and SPHIT reports the lowest-numbered other sprite that is hit, via SPHITNO.",
 ["inputs","histories"],"all placements, sizes, hit-rectangle settings, masks, scales and velocities of sprites",
 "test_sprite has a few fixed placements.",
 [S+"sprites.c"],
 [("separating axis test","sprites.c is_hit"),("hit iteration","sprites.c func_sphit/func_sphitsp")],
 ["SPHITSP/SPHIT/SPHITNO results"])

prop("P16","SAVE then LOAD restores the resource exactly, and nothing else changes",
 "For any contents of a program-independent resource (CHR, COL, SCR, GRP banks, MEM$), saving it under a valid name and loading it back, into the same or another bank of that type, restores exactly the saved contents, leaves every other resource unchanged, and sets RESULT to success. An invalid name, invalid type, missing file or a file of a different type is reported, changes no resource, and writes no file outside the storage folder.",
 ["histories","inputs","fault_sequences"],"all resource contents, resource names, file names, and save/load/delete sequences",
 "test_resources/test_int_resources use one fixture each.",
 [S+"resources.c",I+"program.c"],
 [("file header, naming and type verification","resources.c verify_*, check_load_file, check_save_res"),("resource pointers","resources.c get_resource_ptr")],
 ["resource memory before and after","RESULT","files in the storage directory"])

prop("P17","Compression is lossless for all data",
 "For every byte sequence, decompressing what the compressor produced (with any of its parameter settings or its automatic choice) yields exactly the original bytes, and the automatic choice is never larger than storing the data uncompressed.",
 ["inputs"],"all byte sequences up to the resource sizes in use (random, runs, few-symbol, structured) and all cache sizes",
 "The compressor has no test in the suite.",
 [E+"compress.c"],
 [("move-to-front cache coder","compress.c sbc_compress/sbc_decompress/sbc_optimal_compress")],
 ["decompressed bytes","compressed size"])

prop("P18","SORT and RSORT order the range and permute companions alike, SWAP exchanges",
 "After SORT (RSORT) the selected range of the key array is in ascending (descending) order and is a permutation of its previous contents, every companion array's range is permuted in exactly the same way (elements with equal keys in any order), and elements outside the range are unchanged, for number and string keys alike. Invalid ranges or arrays are reported with everything unchanged, and SWAP exchanges exactly its two operands.",
 ["inputs","programs"],"all key contents (duplicates, sorted, reverse, any length including 0, 1, 2), ranges, and numbers and types of companion arrays",
 "The suite has no SORT test; sortedness over all contents cannot be sampled by examples.",
 [S+"variables.c"],
 [("quicksort with companion swaps","variables.c quick_sort/_partition")],
 ["array contents before and after","error code"])

prop("P19","Direct memory access is a byte-exact view confined to its window",
 "Any sequence of POKE/POKEH/POKEB, MEMCOPY and MEMFILL followed by PEEK/PEEKH/PEEKB returns what a little-endian byte-array model returns, and with memory safety enabled every access outside the valid window, misaligned or null address is reported as an error without reading or writing anything. Addresses given by ADDR refer to the actual storage of the named resource or variable.",
 ["histories","inputs"],"all access sequences with addresses over the whole 32-bit range and any sizes and values",
 "There is no memory API test beyond basic ones.",
 [E+"sbc_memory.c"],
 [("range/alignment checks","sbc_memory.c")],
 ["PEEK results","error code","memory contents outside the window"])

prop("P20","Keyboard input is an ordered queue and button state follows press times",
 "INKEY$, INPUT and LINPUT deliver typed characters in exactly the order they were typed, none lost or duplicated while at most the buffer capacity is pending, interleaved in any way with typing. INPUT gives its variables the entered values separated by commas, and asks again when their number is wrong or a value for a number is no number that can be represented. BUTTON and BTRIG report for each frame exactly the buttons held, newly pressed, repeated (per BREPEAT settings) or released according to the press history.",
 ["histories","schedules"],"all interleavings of key events, frames and reads, and all repeat settings",
 "test_input presses a few keys.",
 [S+"input.c",S+"console.c"],
 [("ring buffer","input.c set_inkey/get_inkey"),("press-time accounting","input.c")],
 ["INKEY$ results, INPUT variables","BUTTON/BTRIG values"])

prop("P21","System variables are validated and report the true state",
 "Read-only system variables cannot be changed by any program; writable ones (TABSTEP, ICONPUSE, ICONPAGE, ICONPMAX, MEM$, and so on) always read back the documented normalised value of what was last assigned; FREEVAR, MAINCNTL/MAINCNTH, CSRX/CSRY, ERR, RESULT, PRGNAME$ and TRUE/FALSE/CANCEL report the actual state of the system at that moment.",
 ["histories","programs"],"all sequences of assignments with any value to any system variable, interleaved with state-changing commands",
 "The suite reads a few system variables once.",
 [S+"sysvars.c","source/sysvars.c","source/system.c",I+"runner.c",S+"panel.c"],
 [("validators after writes","runner.c BC_SYSVAR_VALIDATE"),("read-only literals","sysvars.c")],
 ["values read by programs"])

prop("P22","Colour and character definitions read back what was set",
 "After any sequence of COLSET/COLINIT and CHRSET/CHRINIT, COLREAD and CHRREAD return for every colour and character of every bank exactly the last definition (colours reduced to the hardware's 5/6-bit precision), and no definition affects another entry or bank.",
 ["histories","inputs"],"all sequences of definitions over all banks, indices and values",
 "Tests set a few entries.",
 [S+"resources.c"],
 [("colour conversion","resources.c cmd_colset/cmd_colread"),("hex decoding","resources.c cmd_chrset/cmd_chrread")],
 ["COLREAD/CHRREAD results","resource memory"])

prop("P23","Malformed resource files are rejected without damage",
 "Loading any byte sequence as a program or resource file either succeeds with contents determined by the file or is reported as a load failure; it never crashes or touches memory outside the destination, and a reported failure leaves resources unchanged.",
 ["inputs","fault_sequences"],"all byte sequences, in particular truncations, size-field corruptions and bit flips of valid files of every container format (PX01, PETC, compressed)",
 "Tests load only two valid files.",
 [S+"resources.c",I+"program.c",E+"compress.c"],
 [("header and size checks","resources.c check_load_file, program.c load_program"),("decoder bounds","compress.c sbc_decompress")],
 ["AddressSanitizer reports","RESULT / return value","resource memory"])

prop("P24","The touch panel types, reports and shows exactly what is touched",
 "Touching the lower screen acts as the key drawn at that place: the character of the selected keyboard (KYA, KYM, KYK, with SHIFT for one character and CAPS until touched again), a function key's KEY text, ESC, INSERT, the editing keys while a line is entered, the icons that are set and the icon page buttons. A touch counts once when it starts and again every 5 frames after 30 frames; moving off the key ends it, and nothing is pressed until the touch is released. KEYBOARD, FUNCNO, ICONCHK, ICONPAGE and the TCH variables report this, and PNLTYPE, PNLSTR, KEY, CLS and INPUT leave the panel showing the matching layout, keys and texts.",
 ["histories","schedules"],"all sequences of touches (place, duration, movement) interleaved with all sequences of panel statements and line entries",
 "No test touches the panel.",
 [S+"panel.c",S+"console.c",S+"input.c",S+"sysvars.c"],
 [("key press state machine","panel.c press_key"),("key tables","panel.c keyboard_chr, key_map"),("line entry","console.c shared_input")],
 ["INKEY$, LINPUT, KEYBOARD, FUNCNO, ICONCHK, ICONPAGE","panel texts, layout and key images"])

prop("P26","The picture on the screen is the layers in order with their colours",
 "Whenever a frame is drawn, each pixel of both screens shows the colour of the topmost layer that has a visible (non-zero) pixel there: the graphics page at its priority, sprites by priority, BG layers 1 and 0, text with its background, the cursor, on the lower screen the panel's background, keys and texts. Tiles, flips, palettes, positions (wrapping BG offsets, sprite positions, homes, angles and scales), VISIBLE and PNLTYPE decide what is there; characters and colours are the current ones, with palette entry 0 transparent and the backdrop below all layers. A change to any of these is on the next picture.",
 ["inputs","histories"],"all contents of the layers, characters, colours and settings, and all sequences of statements between pictures",
 "No test draws a picture; the bundled ones compare memory only.",
 ["source/graphics/pc/display_pc.c","resources/bgsp.frag",S+"background.c",S+"sprites.c",S+"graphics.c",S+"panel.c",S+"console.c",S+"resources.c"],
 [("composition","display_pc.c display_draw_all"),("backgrounds","display_pc.c display_background"),("sprites","display_pc.c display_sprite"),("characters and colours","display_pc.c gen_chr_texture, gen_col_texture, bgsp.frag")],
 ["the picture of both screens"])

prop("P25","A DIRECT mode session runs each typed line and program as if on its own",
 "The prompt accepts one line at a time, runs it with the variables of everything before it, shows its result (OK, or the message of its error and the missing label's name) and prompts again, whatever the lines and programs did: errors, open loops and calls, used up variables, SELECT. RUN, EXEC and an autostarted program start the current or loaded program from its beginning with empty call stack and first DATA, keep variables and drop the rest of the line; LOAD, APPEND, SAVE and NEW act on the program RUN runs. A stopped line entry runs nothing. Closing the window at any moment ends the session.",
 ["histories","schedules"],"all sequences of typed lines and programs, with errors, stops and key timing, and all moments of closing the window",
 "The tests never start the DIRECT mode loop.",
 ["source/system.c",I+"runner.c",I+"program.c",S+"resources.c"],
 [("session loop","system.c launch_system"),("program switching","runner.c cmd_run, cmd_exec"),("loading","resources.c load_program")],
 ["screen, cursor and frame at every prompt","end of the session"])

prop("P27","The window passes on keys, text, mouse and input file exactly as they happen",
 "In every frame of the PC version's window, the buttons are those of the keys held down in the current key mode as configured in config.txt, a press of the mode key switches the mode once, typed text (in keyboard mode: ASCII and katakana; nothing else) and the bytes of an input file arrive as these characters, in order and without loss, and the lower screen is touched exactly while the left mouse button is held over it, at that place in a window of any size. A program named on the command line (with or without .PTC) is started. Sprites, backgrounds and the frame counter advance once per frame, and closing the window stops and waits for the program.",
 ["inputs","histories"],"all sequences of window events, key and mouse states, key configurations, window sizes and input files",
 "The tests have no window; nothing in them runs main.",
 ["source/main.c","source/system.c",S+"input.c","resources/config.txt"],
 [("window loop","main.c main"),("start of the program","system.c launch_system"),("shutdown","main.c main, system.c shutdown_system")],
 ["the running program's INKEY$, BUTTON, TCHX, TCHY, TCHST, MAINCNTL and screen","exit of the process"])

prop("P28","The resource converter extracts characters and colours exactly",
 "For every well-formed NCGR file of up to ten banks ntr_to_ptc writes one PTC file per bank of 256 characters, in order and with exactly the file's data, and for every NCLR file of at least 256 colours one PTC file with the first 256; these are files that CHRINIT and COLINIT read. Any other, cut off or inconsistent file, an invalid name or a missing file is reported by the exit code, without writing anything, and never accesses memory outside of its buffers.",
 ["inputs"],"all file contents, names and bank counts",
 "Nothing in the tests uses the converter.",
 ["util/ntr_to_ptc.c",S+"resources.c"],
 [("characters","ntr_to_ptc.c extract_ncgr"),("colours","ntr_to_ptc.c extract_nclr"),("file type","ntr_to_ptc.c main")],
 ["exit code","the files written","CHRREAD and COLREAD after CHRINIT and COLINIT"])

prop("P29","A started interpreter depends only on program and input, and uses nothing up",
 "A newly started interpreter (init_system) is the same whatever its memory held before, be it random bytes or what an earlier interpreter with other tables and another program left: every program then has the same error, variables, console, graphics, backgrounds, sprites, characters, colours, panel, keys, input and names. All blocks of memory it takes are disjoint, inside its memory of MAX_MEMORY bytes, and cleared where calloc_log promises it. What ACLS clears is clear from the start. Running a program, with any statements and files, takes no more of this memory, and leaves no heap memory allocated and no file open, so it can run for ever.",
 ["inputs","histories"],"all programs, inputs, table sizes and earlier contents of the memory",
 "Tests start one interpreter per process and never run a statement often enough to use up the memory.",
 ["source/system.c",E+"sbc_blockalloc.c",S+"resources.c",I+"program.c"],
 [("allocator","sbc_blockalloc.c sbc_malloc, sbc_calloc"),("start","system.c init_system"),("temporary memory and files","system.c cmd_acls, cmd_files; resources.c check_load_file")],
 ["all observable state after the run","sbc_malloc blocks","open files and heap size before and after"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
