"""The properties: text of properties.jsonl and MANIFEST.json (written by bin/mkfiles)."""
S = 'CMakePasm/source/'
TECH = 'bounded exhaustive enumeration of programs run on the real assembler, each compared with an executable reference model'
LEVEL = 'Every element of the finite spaces named in the evidence file is executed on the real program (rebuilt from the working tree) and compared with an independent reference; nothing is sampled. Programs outside of the stated bounds are not covered.'
P = {}


def prop(i, title, statement, over, quant, why, files, mech, observe, tech=TECH, note=LEVEL):
    P[i] = dict(id=i, title=title, statement=statement, over=over, quant=quant, why=why, files=[f if '/' in f else S + f for f in files], mech=mech, observe=observe, tech=tech, note=note)


prop('P01', 'Every instruction is encoded as the processor data sheet says, or refused',
     'For every mnemonic, addressing mode, operand value and selected processor, an instruction assembles to the opcode and operand bytes the data sheet of that processor gives for the shortest mode that holds the operand, operands low byte first. A mnemonic and mode that the selected processor lacks, or an operand that does not fit any of its modes, is refused with an error.',
     ['programs', 'configurations', 'inputs'], 'all mnemonics x addressing modes x operand values x processor settings and switches between them',
     'The tests assemble about one operand per mode; the promise is about every operand value, every mode boundary (255/256, -128/127) and every change of processor.',
     ['opcodes.cc', 'expand.cc', 'genoutput.cc', 'pasm.l', 'pasm.y', 'node.cc'],
     [('opcode table', S + 'opcodes.cc'), ('choice of zero page or absolute mode', S + 'expand.cc'), ('emission of opcode and operand', S + 'genoutput.cc')], ['the output file', 'exit status'])
prop('P02', 'Expressions have the value their operators and precedence give',
     'Every expression evaluates to the value given by the documented operators, C-like precedence and associativity on 32-bit integers, wherever an expression may stand. Every spelling of a number has the same value, and a division by zero or malformed expression is an error.',
     ['programs', 'inputs'], 'all expressions over all operators up to three operators, all prefixes, all number spellings, in all contexts',
     'The tests try single operators with one pair of values; precedence and associativity matter for every combination of operators.',
     ['expand.cc', 'pasm.y', 'pasm.l', 'node.cc'], [('operator precedence', S + 'pasm.y'), ('evaluation', S + 'expand.cc'), ('number literals', S + 'pasm.l')], ['the output file', 'exit status'])
prop('P03', 'Symbols resolve to one consistent layout whatever the order of definitions',
     'Every use of a symbol has the value of its one definition in the final program, independent of whether the definition stands before or after the use and of how many other definitions it depends on. Every successful run yields a layout in which all labels, sizes and addressing modes are mutually consistent. Undefined, cyclic and conflicting definitions are errors.',
     ['programs'], 'all small dependency graphs and orders of labels, equates and size-dependent instructions around the zero page boundary',
     'Fixpoint errors need several mutually dependent statements at an address boundary; tests use one or two labels far from any boundary.',
     ['pass.cc', 'expand.cc', 'sym.cc', 'hash.cc', 'dictionary.cc'], [('iteration of passes until nothing changes', S + 'pass.cc'), ('symbol table', S + 'sym.cc')], ['the output file', 'exit status'])
prop('P04', 'Branches reach their target at every distance',
     'A relative branch assembles to the short form exactly when its target is within -128..127 of the following instruction, and otherwise to the inverted branch over a jump (or a jump for the unconditional branch) to the same target. Everything after it, and every other copy of the same statement, is laid out with the length actually used.',
     ['programs'], 'all branch kinds x displacements around both limits x kinds of target x chains of interdependent branches x repeated expansions',
     'The limits lie at single displacements, and widening one branch can push another out of reach; tests use a few fixed distances.',
     ['expand.cc', 'node.cc', 'genoutput.cc', 'genlist.cc'], [('branch widening', S + 'expand.cc'), ('branch emission', S + 'genoutput.cc')], ['the output file', 'exit status'])
prop('P05', 'The output is the emitted bytes in order, laid out as the origins say',
     'The output file holds exactly the bytes the statements emit, in order, preceded by the little endian load address of the first one when the header is asked for. Labels and the location counter follow origins, fills and reservations exactly, unfilled reserved gaps, misplaced origins and code outside of the 64K address space are errors.',
     ['programs', 'configurations'], 'all sequences of layout statements up to a length, all load addresses, all sizes around the boundaries, with and without the header',
     'The combinations of origin, reservation, fill, first statement and header are many, tests use a few typical programs.',
     ['expand.cc', 'genoutput.cc', 'pass.cc'], [('location counter', S + 'expand.cc'), ('output and header', S + 'genoutput.cc')], ['the output file', 'exit status'])
prop('P06', 'Data directives emit exactly the items written',
     'Every data directive emits its items in order in its own width, low byte first, strings character by character with their escapes, for every item kind, list length, string length and byte value. Values that do not fit, and malformed items, are errors.',
     ['programs', 'inputs'], 'all directives x item lists up to length 3-4, all byte values, escapes, string lengths, list lengths, value limits',
     'Truncation, escape and length errors depend on single values and lengths; tests cover a handful.',
     ['expand.cc', 'genoutput.cc', 'pasm.l', 'str.cc', 'node.cc'], [('string and escape handling', S + 'str.cc and pasm.l'), ('data expansion', S + 'expand.cc'), ('data output', S + 'genoutput.cc')], ['the output file', 'exit status'])
prop('P07', 'Assembly time loops expand their body exactly as often as they say',
     'Counting, condition-first and condition-last loops expand to their body once for each iteration of their documented meaning, each copy assembled with the values its variables have in that iteration, for every nesting, and leave the variables as the last iteration did. Loops that are unterminated, crossed or endless are errors.',
     ['programs'], 'all starts, limits, steps, relations and nestings up to depth 3-4 (one construct up to 60), all body statement kinds and pairs of them',
     'Iteration counts, nesting and values carried between copies form a large space; tests have one small loop of each kind.',
     ['expand.cc', 'pasm.y', 'node.cc', 'genoutput.cc'], [('loop expansion', S + 'expand.cc'), ('expansion copies', S + 'node.cc')], ['the output file', 'exit status'])
prop('P08', 'Register loops run their body once for each register value',
     'The code emitted for a register loop, run on the processor, executes its body exactly once for each register value from the first to the last bound inclusive, in order, then continues after the loop, whatever flags the body leaves and however long it is. Bounds outside of a byte and nesting of the same register are errors.',
     ['programs', 'inputs'], 'all start and end values, both directions and registers, many bodies, lengths around the branch limit, nestings of the two registers',
     'The generated compare and branch differ at 0, 127/128 and 255, and when the branch gets out of reach; tests compare bytes for a few ranges.',
     ['expand.cc', 'pasm.y'], [('register loop code', S + 'expand.cc')], ['the output file, executed on a 6502 simulator'],
     tech='bounded exhaustive enumeration of loop programs; the real output is executed on a 6502 model from several initial states and its trace compared')
prop('P09', 'Macro calls expand to the body with the arguments of that call',
     'Every macro call assembles to the body of the macro with each parameter replaced by the value of the matching argument, evaluated where the call stands. Local labels belong to one expansion, nested calls restore the parameters of the caller, and each copy gets the addressing modes and sizes of its own arguments.',
     ['programs'], 'all argument counts up to 14, permutations through chains of calls, argument expressions x uses, placements of local labels, definitions and calls',
     'Parameters of an outer call, local names and sizes can leak between expansions only in particular nestings and orders; tests call a few macros once.',
     ['expand.cc', 'sym.cc', 'pasm.y', 'pasm.l', 'node.cc'], [('macro expansion', S + 'expand.cc'), ('saving of parameters', S + 'sym.cc push_macro_params')], ['the output file', 'exit status'])
prop('P10', 'Conditional assembly takes exactly the branches its conditions select',
     'Exactly the statements in the selected branches of .if, .ifdef, .ifndef and .else are assembled, whatever the nesting, the text and definitions in the branches not taken, and the files the conditional is in. Unbalanced conditionals are errors.',
     ['programs'], 'all forests of up to 4 conditionals, all token sequences up to length 5, nesting up to 200, all texts of a catalogue in skipped branches, all condition values',
     'Skipped text can hold anything that looks like the end of the branch, and nesting of the three mechanisms interacts; tests have two levels.',
     ['pasm.l', 'pasm.y', 'expand.cc', 'stacks.cc'], [('text level conditionals', S + 'pasm.l'), ('evaluated conditionals', S + 'expand.cc')], ['the output file', 'exit status'])
prop('P11', 'Sections keep their symbols apart and qualified names reach them',
     'A symbol or variable defined in a section is a symbol of its own: unqualified uses in the section mean it, everything else reaches it only by its qualified name, and a definition of the same name elsewhere neither changes it nor is changed by it. This holds for every order of definition and use, nesting and reopening of sections.',
     ['programs'], 'all sequences of section borders, definitions and uses up to length 5, nesting up to 40, all pairs of confusable names, all ways of definition x use x place',
     'Whether a name resolves inside or outside depends on what has been seen in this and the previous pass; tests use one section with distinct names.',
     ['expand.cc', 'sym.cc', 'dictionary.cc', 'pasm.l'], [('scope of names', S + 'sym.cc add_symbol/look_up_symbol'), ('section stack', S + 'expand.cc')], ['the output file', 'exit status'])
prop('P12', 'Local and anonymous labels mean the right definition',
     'A local label means the one defined between the same two ordinary labels, before or after the use. The n-th minus or plus means the n-th anonymous label before or after the use in the same file (each time a file is read by itself), at any depth and count. Uses without such a label are errors.',
     ['programs'], 'all sequences of definitions and uses up to length 6, all depths to 60, counts to 5100, all operand contexts, several files',
     'Resolution depends on the order of all labels in all files and on line numbers; tests use one or two labels.',
     ['sym.cc', 'expand.cc', 'pasm.l'], [('tables of anonymous labels', S + 'sym.cc find_plus_symbol/find_minus_symbol'), ('local names', S + 'sym.cc format_local_sym')], ['the output file', 'exit status'])
prop('P13', 'Included, loaded and several source files are assembled as one text',
     'The assembly of a program spread over source files and included files equals the assembly of the text with every file in the place it is named, whatever the nesting, order, length and repetition of the files, and a loaded file appears byte for byte. Files are found in the listed directories in their order, and a file that cannot be found is an error.',
     ['programs', 'inputs', 'configurations'], 'all include trees of small files, chains to depth 39, up to 300 inclusions, all byte values and lengths of loaded files, all placements in up to 3 directories',
     'Lexer buffers, file and conditional stacks fail at particular nestings, lengths and ends of files; tests include one file once.',
     ['pasm.l', 'pasm.y', 'file.cc', 'stacks.cc', 'expand.cc', 'genoutput.cc', 'main.cc'], [('include and source switching', S + 'pasm.l'), ('loaded files', S + 'genoutput.cc'), ('search of directories', S + 'file.cc')], ['the output file', 'exit status'])
prop('P14', 'The listing shows the address, bytes and instructions of the output',
     'Every byte of the output appears in the listing exactly once, at its address, beside the source line that emitted it (for one line of code; the block for loops and macros), every source line is shown once with its text, and the disassembly shown assembles to the bytes shown. Turning the listing off and on in the source hides exactly the lines between.',
     ['programs'], 'all instructions and operand forms, strings and lists of all lengths to 70, sequences of up to 4 kinds of statement, files, origins and listing switches',
     'The listing is formatted separately from the output and can differ from it at single lengths, values or mixtures; tests compare no listing.',
     ['genlist.cc', 'opcodes.cc', 'stacks.cc', 'expand.cc'], [('listing rows', S + 'genlist.cc'), ('source text of rows', S + 'genlist.cc get_file_line')], ['the listing file', 'the output file'])
prop('P15', 'The symbol file shows the symbols with the values they have in the output',
     'The symbol file names every symbol the program uses once with its final value, and no symbol twice or with a value the output does not have, for every number of symbols, value, name, scope and order of definition and use. Command line definitions have the value given and are shown like others.',
     ['programs', 'configurations'], 'all sequences of length 5 of definitions and uses, numbers of symbols round the growth of the table, all values round the borders, all confusable names, all kinds of use',
     'The table is rebuilt as it grows and values settle over passes; tests look at no symbol file.',
     ['sym.cc', 'dictionary.cc', 'hash.cc', 'expand.cc', 'main.cc', 'pass.cc'], [('symbol file', S + 'sym.cc dump_symbols'), ('symbol table', S + 'dictionary.cc')], ['the symbol file', 'exit status'])
prop('P16', 'Errors fail the run and are reported once, at the right file and line',
     'A program in error ends with a failing exit status and a message that names the file and line of the first erroneous statement, whatever comments, blocks, macros, includes and other sources stand before or around it. Each of several such errors is reported once and counted; a file that cannot be written is an error; warnings appear exactly while they are turned on and do not fail the run.',
     ['programs', 'configurations'], '41 kinds of error x lines x all sequences of 3 preceding constructs x include trees x positions in blocks, all sets of errors over 8 lines, all sequences of 6 warning events',
     'Line numbers are counted by the lexer in many separate rules and saved over files; tests check no message.',
     ['pasm.l', 'pasm.y', 'error.cc', 'stacks.cc', 'expand.cc', 'main.cc', 'parseargs.cc'], [('counting of lines', S + 'pasm.l'), ('messages', S + 'error.cc'), ('saved positions', S + 'pasm.l')], ['standard error', 'exit status'])
prop('P17', 'Spelling, side outputs and repetition do not change what is assembled',
     'The output, messages and exit status depend only on the tokens of the program: not on white space, comments, the letter case of words and names, the kind of line ends, blank lines or the name and place of the source. They are the same whatever other files and reports are asked for with them, and the same in every run.',
     ['programs', 'configurations', 'histories'], '78 programs x every gap between tokens x kinds of white space and comment, all case patterns of all words, all line end combinations, all subsets of the side outputs, 6 fillings of memory',
     'The lexer treats position, preceding token and line ends specially; tests have one spelling of each statement.',
     ['pasm.l', 'pasm.y', 'pass.cc', 'sym.cc', 'parseargs.cc', 'genlist.cc'], [('tokens and white space', S + 'pasm.l'), ('case of names', S + 'hash.cc and dictionary.cc'), ('side outputs', S + 'pass.cc')], ['all output files', 'standard error', 'exit status'])
prop('P18', 'The command line does what its options say',
     'The result of a run is that of the options given, in every order and spelling of them: each takes its operand, sources are assembled in their order, definitions have the value given in every notation, processor and header options hold, and exactly the files asked for are written, completely and in place of older ones. Repeated options, missing operands and sources, and values that are no word end with a failing status and write nothing.',
     ['configurations', 'inputs'], 'all argument lists of up to 4 words of 19, all subsets of flags around sources, all spellings, all 65536 values of definitions, 1 to 150 sources, all output sizes over older files',
     'Options take effect while the list is read and interact; tests pass one fixed list.',
     ['parseargs.cc', 'main.cc', 'pass.cc', 'globals.cc', 'file.cc'], [('reading of options', S + 'parseargs.cc'), ('files written', S + 'pass.cc')], ['all output files', 'standard output', 'exit status'])
prop('P21', 'Every text and command line is assembled or refused, never a crash',
     'For every source text, file set and argument list the assembler ends: with output and exit status 0, or with a message and a failing exit status. It never accesses memory out of bounds or after it was freed, overflows its stack, ends by a signal or runs forever.',
     ['inputs', 'programs', 'configurations'], 'all strings to length 3 over sets of characters, all sequences of 3 tokens and 3 lines, all prefixes and single token and byte edits of 78 programs, all depths and lengths round powers of two, all lists of 3 arguments',
     'Malformed texts are unlimited in number and take paths no correct program takes; tests assemble correct programs.',
     ['pasm.l', 'pasm.y', 'expand.cc', 'node.cc', 'sym.cc', 'file.cc', 'error.cc', 'stacks.cc', 'parseargs.cc', 'genlist.cc'], [('lexer and parser', S + 'pasm.l and pasm.y'), ('limits of nesting and loops', S + 'expand.cc'), ('buffers', S + 'error.cc and file.cc')], ['exit status', 'standard error', 'sanitizer reports'],
     tech='bounded exhaustive enumeration of texts and argument lists run on an address/undefined behaviour sanitizer build of the real assembler')
prop('P19', 'Symbol tables and stacks hold what was put into them',
     'A dictionary finds for each key the value most recently inserted and not deleted, with string keys that differ only in case being one key, at every number of elements and across every growth. Value addresses stay valid until deletion, a stack returns what was pushed, last first, at every depth, and destroying either releases all its memory.',
     ['histories'], 'all sequences of 4 operations on 6 related keys, and 3 round both growths of the table; all sequences of 5 operations on stacks of 18 depths; all pairs of short names',
     'Chains, growth and release depend on the history and on collisions; tests insert some keys and read them.',
     ['dictionary.cc', 'hash.cc', 'stacks.cc', 'memory.cc'], [('dictionary', S + 'dictionary.cc'), ('stack', S + 'stacks.cc'), ('comparison of names', S + 'hash.cc hash_function and memory.cc stricmp')], ['return values', 'element count', 'contents', 'allocated memory'],
     tech='explicit-state exploration of operation sequences on the real data structures in lockstep with a plain model, on a sanitizer build')
prop('P22', 'Line end conversion of the samples changes nothing but line ends',
     'In every text file below the samples directory each line end (CR LF, LF or CR) becomes one LF and all other bytes stay, so that a second conversion changes nothing; a text holds only printable ASCII, tabs and line ends. Every other file, and the set of files and directories, stays exactly as it is, for every tree and every file content and length.',
     ['inputs', 'configurations'], 'all texts of 8 pieces of letter, CR, LF and of 5 of 8 pieces, every byte at every kind of place, all lengths round powers of two, all trees of up to 4 directories with every subset of them filled',
     'The state machine of line ends depends on the order of CR and LF in runs of them; nothing tests the tool, and the samples have one kind of line end each.',
     ['CMakePasm/eolconvert/eolconvert.cc'], [('line end automaton', 'CMakePasm/eolconvert/eolconvert.cc replace_eol'), ('text or binary', 'CMakePasm/eolconvert/eolconvert.cc is_text_file'), ('directory walk', 'CMakePasm/eolconvert/eolconvert.cc process_directory')], ['the converted files', 'exit status'],
     tech='bounded exhaustive enumeration of texts and directory trees converted by the real tool in a scratch directory and compared with an automaton of line ends')
prop('P23', '.print shows its items once, with their values there, and changes nothing',
     'Each .print (or ?) that is reached writes one line to standard output, once however many passes are made: its items in order, a string as its text and a number as its low byte in hexadecimal with the high byte before it if that is not 0, with the values symbols have at that place, also those defined later. .print writes nothing to the output and moves nothing; .printall (or ??) writes the same line in each pass, and the last pass writes it last.',
     ['inputs', 'configurations', 'operation sequences'], 'all lists of up to 3 of 27 items, every 16-bit value, 27 items in 40 places, all sequences of up to 4 (6) of 12 statements, prints before each line of 252 programs',
     'What a print shows depends on the pass it is made in and on the state at its place; the tests compare binaries, nothing reads what is printed.',
     ['expand.cc', 'pasm.y'], [('prints in the final pass', 'CMakePasm/source/expand.cc expand_node of .print'), ('hexadecimal items', 'CMakePasm/source/expand.cc'), ('print forms', 'CMakePasm/source/pasm.y')], ['standard output', 'exit status', 'the output file'],
     tech='bounded exhaustive enumeration of print statements and programs of them run through the real assembler, the lines shown compared with a reference model')
prop('P24', 'Constructs nest and follow one another freely, each keeping its meaning',
     'Conditionals, assembly time loops, macro calls, sections, included files and the statements in them combine freely: nested in one another to any depth and following one another in any order they assemble to the bytes that expanding each of them by its own rules gives, and no construct has an effect on what stands behind it but the definitions it makes.',
     ['programs', 'operation sequences'], 'all nestings of two constructs around all pairs of 22 statements, all triples of statements in one construct, all nestings and rows of three constructs, definitions in one nesting and uses in another, all cuts of such programs into files',
     'The tests assemble each construct alone; state that one construct leaves behind (scopes, counters, macro arguments, label stacks, positions) shows only when certain constructs and statements meet.',
     ['expand.cc', 'sym.cc', 'node.cc', 'pass.cc', 'pasm.y', 'pasm.l'], [('expansion of every kind of node', S + 'expand.cc'), ('scopes of symbols', S + 'sym.cc'), ('passes', S + 'pass.cc')], ['the output file', 'exit status'],
     tech='bounded exhaustive enumeration of nestings of constructs and sequences of statements, run through the real assembler and compared with a reference assembler')
