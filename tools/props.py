VM = ['src/vm/vm.c', 'src/vm/vm.h']
AI = 'abstract interpretation of the LLVM IR (value numbers + linear constraints)'
SUMM = 'per-opcode path summaries by abstract interpretation, compared with an instruction table'
TRUST = ('Sound up to: clang/opt front-end passes, no aliasing between distinct allocations, host '
         'callbacks do not change the VM behind its back, x86-64. Release build (DEBUG_VM off), '
         'both dispatch variants (computed goto, switch).')
T14 = 'The 14 tests run two fixed modules (and a few hand-made bad images) to completion; '

ASM = ['q3asm/q3asm.c']
LCC = ['lcc/src/simp.c', 'lcc/src/enode.c', 'lcc/src/c.h']
TA = 'The tests assemble the output of the compiler for a few programs; '
TA2 = ('String parsing (tokens, numbers) and symbol tables are kept as uninterpreted results of what '
       'they read. Sound up to: clang/opt front-end passes, no aliasing between distinct '
       'allocations, the C library, x86-64.')
LINES = 'per-line path summaries by abstract interpretation of the LLVM IR'
PROG = 'path enumeration of the pass driver by abstract interpretation (lines by their effects)'

PROPS = [
 dict(id='C01', title='Bytecode can only touch its own data segment',
      statement='Whatever instructions a loaded module executes and whatever values it computes, '
      'every memory access the interpreter performs for it (loads, stores, call frames, argument '
      'stores, block copies, system call arguments) stays inside the data segment allocated for '
      'that virtual machine. Out-of-range addresses wrap into the segment; an out-of-range block '
      'copy is refused without copying anything.',
      over=['programs', 'inputs'], q='all modules the loader accepts, all operand values, all '
      'instructions, both dispatch variants',
      why=T14 + 'confinement must hold for every value of every address register.',
      files=VM, mech=[('address masking in the instruction handlers', 'VM_CallInterpreted'),
                      ('range check of block copies', 'VM_BlockCopy'),
                      ('power-of-two segment with a guard', 'VM_LoadQVM')],
      state=[('dataMask', 'size of the data segment minus one', 'vm.h, vm_t'),
             ('programStack', 'VM stack pointer, controlled by the module', 'VM_CallInterpreted')],
      observe=['host memory outside the segment'],
      technique=AI, note='Every access site of every handler is proved in bounds. ' + TRUST),
 dict(id='C02', title='Control flow never leaves the validated instructions',
      statement='From a module the loader accepted, the interpreter only ever executes words that '
      'are the start of an instruction established at load time, whatever the module computes. '
      'Jump and call targets outside the instruction range, return addresses that do not follow '
      'a call, and running off the end of the code end the call with an error.',
      over=['programs', 'inputs'], q='all modules, all computed jump, call and return targets',
      why=T14 + 'well-behaved compiler output never jumps outside the code.',
      files=VM, mech=[('branch target translation', 'VM_PrepareInterpreter'),
                      ('index checks of OP_JUMP / OP_CALL', 'VM_CallInterpreted'),
                      ('return address check of OP_LEAVE', 'VM_CallInterpreted'),
                      ('OP_UNDEF sentinel behind the code', 'VM_PrepareInterpreter')],
      technique=AI + '; control-flow-integrity rule on the next program counter',
      note='Loader guarantees are derived from the loader summary of the same tree. ' + TRUST),
 dict(id='C03', title='The operand stack is confined and initialised',
      statement='For every instruction sequence, including ones that push or pop without bound, '
      'operand stack accesses stay inside the interpreter\'s operand stack (the index wraps '
      'around). A module never reads operand stack entries that were not initialised by the '
      'interpreter or written by the module itself.',
      over=['programs'], q='all instruction sequences, all 256 stack positions',
      why=T14 + 'compiler output keeps the stack nearly empty.',
      files=VM, mech=[('8-bit operand stack index', 'VM_CallInterpreted'),
                      ('clearing of the stack on entry', 'VM_CallInterpreted')],
      technique=AI, note='Index range and bounds proved for all positions. ' + TRUST),
 dict(id='C04', title='The loader is memory safe on arbitrary images',
      statement='Loading any byte sequence of any length, truncated, hostile or random, never '
      'reads outside the given image and never writes outside the memory the loader allocated. '
      'A failed allocation is never used.',
      over=['inputs', 'fault_sequences'], q='all images and lengths, every allocation failing or '
      'not', why=T14 + 'the few bad images sample single header fields.',
      files=VM, mech=[('header validation', 'VM_LoadQVM'),
                      ('bounds checks while decoding', 'VM_PrepareInterpreter')],
      technique=AI + ' with inferred loop invariants',
      note='All access sites of the loader proved in bounds, the second decoding pass by a '
      'lockstep argument over the first one\'s table. ' + TRUST),
 dict(id='C05', title='The loader accepts exactly the well-formed images',
      statement='An image is accepted only if it has the right magic number, a non-empty code '
      'segment inside the file, initialised data inside the file, no negative sizes, no more '
      'instructions than code bytes, only known opcodes with complete operands, and branch '
      'targets inside the instruction range. An image that meets these conditions (up to 4 MiB '
      'file and 10 MiB uninitialised data) is refused only when memory is exhausted.',
      over=['inputs'], q='all images', why=T14 + 'acceptance is a condition on all 32 header '
      'bytes and every instruction.',
      files=VM, mech=[('header validation', 'VM_LoadQVM'), ('decoding', 'VM_PrepareInterpreter')],
      technique=AI + '; entailment of each condition on every exit',
      note='Success paths must entail each condition, failing paths must contradict '
      'well-formedness. ' + TRUST),
 dict(id='C06', title='The loader decodes every opcode as the instruction set says',
      statement='Each of the 256 possible opcode bytes is either refused or decoded with the '
      'operand size of the instruction set, operands are little endian on every host, and '
      'exactly the operands of conditional branches are translated to code addresses. Jump '
      'table entries are the positions of the instructions in order.',
      over=['inputs'], q='all opcode bytes, all operand bytes',
      why=T14 + 'the modules use a subset of the opcodes, and errors in one table entry only '
      'show for modules that use it.',
      files=VM, mech=[('expansion pass', 'VM_PrepareInterpreter'),
                      ('branch translation pass', 'VM_PrepareInterpreter')],
      technique='recovery of the decode table from loop summaries, table agreement',
      note='Complete over the 256 byte values. ' + TRUST),
 dict(id='C07', title='Every instruction computes what the instruction set defines',
      statement='For all operand values, each instruction leaves exactly the operand stack, data '
      'segment, program stack and next instruction that the instruction set defines, and has no '
      'other effect. Both interpreter build variants agree.',
      over=['programs', 'inputs'], q='60 opcodes x all operand values x both dispatch variants',
      why=T14 + 'each opcode is tested on a few values, many not at all.',
      files=VM, mech=[('instruction handlers', 'VM_CallInterpreted')],
      technique=SUMM,
      note='Exhaustive over opcodes and handler paths; the oracle is an independent table. '
      'Out-of-range float to int conversion is left to the host CPU. ' + TRUST),
 dict(id='C08', title='No bytecode can trap the host CPU',
      statement='No operand values make the interpreter execute an integer division or remainder '
      'that traps: division by zero ends the call with an error, and the smallest integer '
      'divided by -1 yields the two\'s complement result.',
      over=['inputs', 'programs'], q='all operands of the four division instructions',
      why='No test divides by a runtime zero or INT_MIN by -1.',
      files=VM, mech=[('divisor checks', 'VM_CallInterpreted')],
      technique=AI + ' of every division site',
      note='All division sites in both variants. ' + TRUST),
 dict(id='C09', title='Every VM failure is reported, recorded and returned',
      statement='Whenever loading, calling or freeing a VM fails, the host\'s error callback has '
      'been invoked, the error code kept in the VM is the non-zero code reported last, and the '
      'failure value is returned. A successful load reports no error and leaves no error code.',
      over=['inputs', 'programs', 'fault_sequences'], q='all failure paths of the VM API',
      why=T14 + 'most error paths are never taken.',
      files=VM, mech=[('error exits', 'VM_Create, VM_CallInterpreted, VM_Free'),
                      ('lastError', 'vm_t')],
      technique=AI + '; error-discipline rule on every exit',
      note='All exits of VM_Create, VM_Call, VM_Free. ' + TRUST),
 dict(id='C10', title='VM memory is released exactly once on every path',
      statement='If loading fails, everything allocated so far is released exactly once with the '
      'type it was allocated with, and the VM is left empty; if it succeeds, everything is owned '
      'by the VM. Freeing a VM releases each allocation once, tolerates partially filled or '
      'already freed VMs, and refuses a VM that is running.',
      over=['inputs', 'fault_sequences', 'histories'], q='all paths of load and free, every '
      'allocation failing or not',
      why='The tests fail no allocation and check no type tags.',
      files=VM, mech=[('cleanup on failure', 'VM_Create'), ('release', 'VM_Free')],
      technique=AI + '; allocation typestate',
      note='Typestate of each allocation on each path. ' + TRUST),
 dict(id='C11', title='Calls restore the VM state, also when they fail',
      statement='After any call into a module, successful or failed, nested or not, the VM\'s '
      'stack pointer and nesting depth are what they were before, and the VM counts as running '
      'exactly if an outer call is still active. While the host handles a system call, a nested '
      'call starts below the frame of the caller.',
      over=['histories', 'programs'], q='all exits of a call, all nesting depths',
      why=T14 + 'only one nested call is tested and none that fails.',
      files=VM, mech=[('save and restore around the interpreter', 'VM_Call'),
                      ('programStack during system calls', 'VM_CallInterpreted')],
      technique=SUMM + '; exit-state rule',
      note='Induction over nesting: each exit restores, each system call assumes it. ' + TRUST),
 dict(id='C12', title='System calls receive the module\'s arguments unchanged',
      statement='A call to a negative address invokes the host handler of this VM once, with the '
      'call number first and the following 15 argument words of the caller\'s frame, '
      'sign-extended. Its result, truncated to 32 bits, is the value of the call, and execution '
      'continues behind it with an otherwise unchanged operand stack.',
      over=['programs', 'inputs'], q='all call numbers and argument values, both variants',
      why=T14 + 'few system calls with few arguments are exercised.',
      files=VM, mech=[('OP_CALL with a negative target', 'VM_CallInterpreted')],
      technique=SUMM, note='All paths of the handler in both variants. ' + TRUST),
 dict(id='C13', title='Host arguments and results cross the VM boundary intact',
      statement='A call from the host starts at the first instruction with the command and the '
      'next 12 integer arguments in order in the module\'s frame, terminated so that returning '
      'from it ends the call. The host receives the value the module returned.',
      over=['inputs', 'programs'], q='all argument values',
      why=T14 + 'only the first few arguments are ever passed.',
      files=VM, mech=[('frame set-up', 'VM_Call, VM_CallInterpreted'),
                      ('return on -1', 'VM_CallInterpreted, OP_LEAVE')],
      technique=AI + ' of the entry path', note='All 13 argument words and the frame. ' + TRUST),
 dict(id='C14', title='The caller\'s image is never modified or retained',
      statement='Loading never writes to the image the host passed in, and a loaded VM keeps no '
      'pointer into it, so the host may pass read-only memory and release it after loading.',
      over=['inputs'], q='all images', why='The tests pass writable heap memory and rarely '
      'inspect it afterwards.',
      files=VM, mech=[('header copy', 'VM_LoadQVM'), ('code expansion', 'VM_PrepareInterpreter')],
      technique=AI + '; write-effect and pointer-retention rule',
      note='All writes and all members of the VM on all exits. ' + TRUST),
 dict(id='C15', title='Virtual machines share no state',
      statement='In release builds the VM keeps all its state in the caller\'s VM object and the '
      'memory allocated for it: no variable shared between virtual machines is written or read, '
      'and only the host callbacks and side-effect free C library functions are called.',
      over=['histories', 'schedules'], q='all functions of the VM', why=T14 + 'they use one or '
      'two VMs in sequence on one thread.',
      files=VM, mech=[('state in vm_t', 'vm.h')],
      technique='effect analysis of globals and callees over the IR of the translation unit',
      note='All functions and call sites of the release build. ' + TRUST),
 dict(id='C16', title='A loaded data segment holds the file\'s data and a zero guard',
      statement='After a successful load the data segment has a power-of-two size that holds '
      'data, literals and uninitialised data, starts with the data and literal bytes of the '
      'file, is zero elsewhere, and is followed by a guard that no instruction can write '
      'completely, so strings in it always end. The program stack starts at its end.',
      over=['inputs'], q='all accepted images', why=T14 + 'sizes and contents of two modules.',
      files=VM, mech=[('segment set-up', 'VM_LoadQVM'), ('stack set-up', 'VM_Create')],
      technique=AI + '; postconditions on every success path',
      note='All success paths. ' + TRUST),
 dict(id='C17', title='Host access helpers stay inside the data segment',
      statement='Translating a VM address for the host yields nothing for the null address and '
      'otherwise a pointer into the data segment; the range check refuses every range '
      'that leaves the segment, for every length including huge ones, and accepts every non-null '
      'range that ends before the last byte of the segment. The float helpers preserve every bit '
      'pattern.',
      over=['inputs'], q='all 64-bit addresses and lengths', why='The tests use small valid '
      'ranges.',
      files=VM, mech=[('address translation', 'VM_ArgPtr'),
                      ('range check', 'VM_MemoryRangeValid'),
                      ('float helpers', 'VM_IntToFloat, VM_FloatToInt')],
      technique=AI, note='All paths of the four helpers. ' + TRUST),
 dict(id='C19', title='q3asm accepts directives exactly and rejects unknown lines',
      statement='A line of assembly is accepted only if it is empty, a comment, an instruction '
      'mnemonic or one of the directives; anything else is reported as an error. export, import, '
      'line and file change nothing in the output; code, data, lit and bss select exactly '
      'that segment; align moves the current segment to the next multiple of the power of two it '
      'names.',
      over=['inputs'], q='all lines, in every segment', why=TA + 'a misspelt directive or a segment '
      'switch in an unusual order never occurs there.',
      files=ASM, mech=[('directive handlers', 'TryAssemble*'), ('dispatch', 'AssembleLine')],
      technique=LINES, note='All paths of all directives and of an unknown token in all segments. ' + TA2),
 dict(id='C20', title='q3asm assembles every mnemonic to the instruction it names',
      statement='Every mnemonic the compiler emits becomes exactly the virtual machine instruction '
      'it names, with the opcode number the virtual machine decodes, followed by the little endian '
      'value of its operand where the instruction has one (block copy sizes rounded up to words). '
      'Conversions without effect emit nothing. Unsupported mnemonics and missing or surplus '
      'operands are reported.',
      over=['inputs'], q='all mnemonics of the operator table, all operands, all segments',
      why=TA + 'they use a part of the instruction set with a few operands.',
      files=ASM + ['q3asm/opstrings.h', 'src/vm/vm.c'],
      mech=[('operator table', 'opstrings.h'), ('instruction emission', 'AssembleLine')],
      technique=LINES + ', compared with an instruction table', note='All paths of all mnemonics. ' + TA2),
 dict(id='C21', title='The code q3asm writes decodes to what the header counts',
      statement='On every run without errors the code segment is a sequence of whole instructions '
      'with known opcodes and complete operands, and the instruction count in the header is '
      'exactly their number. No data gets into the code segment.',
      over=['inputs'], q='all sequences of lines (inductively, per line)',
      why=TA + 'whole programs of the compiler only, which avoid malformed lines.',
      files=ASM, mech=[('emission and counting', 'AssembleLine, TryAssemble*'),
                       ('data in code', 'ReserveSpace, HackToSegment')],
      state=[('instructionCount', 'instructions so far', 'q3asm.c')],
      technique=LINES + '; every other writer of the counter is checked',
      note='Per-line induction step over all mnemonics, directives and unknown tokens. ' + TA2),
 dict(id='C22', title='q3asm never leaves an output file behind after an error',
      statement='If any error was reported, q3asm writes no .qvm file, removes one left by an '
      'earlier run, and exits with a status from 1 to 255. Without errors it writes the file '
      'and exits with 0. Reported errors are never forgotten.',
      over=['inputs', 'fault_sequences'], q='all error sites in both passes', why=TA +
      'almost no test source contains an error.',
      files=ASM + ['q3asm/cmdlib.c'], mech=[('error count', 'CodeError'), ('output', 'WriteVmFile'),
                                          ('exit status', 'main')],
      state=[('errorCount', 'errors so far', 'q3asm.c')], observe=['exit status', 'output file'],
      technique=PROG, note='All paths of Assemble and main; lines by their effects. ' + TA2),
 dict(id='C23', title='q3asm writes the file layout the loader reads',
      statement='The header of a written .qvm file describes the file: code, data and literals '
      'follow it in this order with the lengths stated, each length is its segment rounded up to '
      'words, bss includes the program stack. Data, lit and bss symbols have the addresses '
      'at which the loader places these segments, and no symbol has address 0 in the data segment.',
      over=['inputs'], q='all segment sizes', why=TA + 'a handful of segment sizes.',
      files=ASM, mech=[('header and output', 'WriteVmFile'), ('segment bases', 'Assemble')],
      technique=PROG, note='All writing paths and the start of each pass. ' + TA2),
 dict(id='C25', title='Symbols of q3asm resolve to what they name',
      statement='A label, function or equ name is filed once, in the first pass, with the position '
      'or number of the line that defines it and the segment it lies in; an equ name is a plain '
      'number. In the second pass each reference to the name gives exactly this address (value '
      'plus base of that segment). Names beginning with $ are private to their source file. A '
      'second definition and a reference to an unknown name are errors. Every mnemonic is found '
      'in the operator table.',
      over=['inputs', 'histories'], q='all names, all contents of the hash chains, both passes, all '
      'lines that define symbols',
      why=TA + 'hash collisions, equal local names in different files and long chains need '
      'programs the tests do not have.',
      files=ASM, mech=[('definition', 'DefineSymbol, hashtable_symbol_exists, hashtable_add'),
                       ('reference', 'LookupSymbol'), ('operator table', 'InitTables')],
      state=[('symtable', 'hash table of the symbols', 'q3asm.c'),
             ('symbols, lastSymbol', 'list of the symbols', 'q3asm.c')],
      technique=AI + ' of the symbol table functions, loops over chains generalised',
      note='Host allocations are taken to succeed. ' + TA2),
 dict(id='C26', title='q3asm keeps stack frames consistent',
      statement='ENTER and every LEAVE of a function use the same frame size: return address, '
      'argument block and locals, rounded up to words. Parameters, locals and outgoing arguments '
      'are addressed without overlap at offsets in this frame; argument slots advance by one '
      'word and restart at each call; argument offsets that do not fit into their byte and '
      'frames that are too large are reported.',
      over=['inputs'], q='all frame sizes, numbers of arguments and locals', why=TA +
      'small frames and few arguments.',
      files=ASM, mech=[('frame instructions', 'TryAssemblePROC, TryAssembleENDPROC, TryAssembleRET'),
                       ('addresses', 'TryAssembleADDRL, TryAssembleADDRF, TryAssembleARG')],
      state=[('currentLocals', 'bytes of locals', 'q3asm.c'), ('currentArgs', 'argument block', 'q3asm.c'),
             ('currentArgOffset', 'next argument', 'q3asm.c')],
      technique=LINES, note='All paths of the frame lines. ' + TA2),
 dict(id='C28', title='Both passes of q3asm lay the program out in the same way',
      statement='Symbol values determined in the first pass are right in the second: both passes '
      'start from the same state and each line changes the segment positions, the instruction '
      'count, the frame and the current segment by amounts that do not depend on '
      'the pass, on symbol values or on segment contents.',
      over=['inputs'], q='all sequences of lines (inductively, per line)', why=TA +
      'a divergence needs a rare combination of lines.',
      files=ASM, mech=[('pass driver', 'Assemble'), ('lines', 'AssembleLine')],
      state=[('passNumber', '0 or 1', 'q3asm.c')],
      technique='dependence (taint) analysis of per-line path summaries; start states of the passes '
      'compared', note='Per-line induction step plus the start states. ' + TA2),
 dict(id='C29', title='q3asm puts initialised data where its label points',
      statement='Data directives append the little endian bytes of their values without gaps. '
      'The first datum behind a label starts at the label, or the label is moved to it, on a word; '
      'the data that follow go directly behind it in the same segment, so an object is never '
      'split, whatever mixture of byte, address and skip it has.',
      over=['inputs'], q='all pairs of data lines after a label, in every segment', why=TA +
      'few mixed initialisers.',
      files=ASM, mech=[('segment choice', 'HackToSegment'), ('data lines',
                       'TryAssembleBYTE, TryAssembleADDRESS, TryAssembleSKIP')],
      state=[('lastSymbol', 'symbol of the last label', 'q3asm.c')],
      technique=LINES + ', three lines in sequence', note='All paths through three lines. ' + TA2),

 # ---------------------------------------------------------------- compiler
 dict(id='C30', title='rcc prints the code and data of a program as q3asm reads them',
      statement='For every forest of nodes the bytecode back end prints each operator, spelled with '
      'its type suffix and size as q3asm knows it, after its operands, left one first, followed by the '
      'name or number it needs: constants with their value, names, labels, offsets in the frame, '
      'block sizes, sizes converted from (a value loaded from a narrower unsigned object is not sign '
      'extended, a computed one is masked); the value of a call that is not used is popped. '
      'Parameters and locals have addresses of their own aligned as their type asks; proc and endproc '
      'state a frame as large as the largest set of blocks active together and room for the arguments '
      'of the largest call. Data is printed byte exact with its size; symbols are defined aligned and '
      'in their segment, exported and imported under their name; static locals and generated symbols '
      'have names of their own; addresses into objects have the offset and its sign.',
      over=['programs', 'inputs'], q='all operators, sizes and symbols',
      why='Tests compile few programs; layouts (nested blocks, packed parameters, segments) and '
      'operand forms depend on combinations that they do not have.',
      files=LCC, mech=[('nodes', 'dumptree, emit in bytecode.c; opname in tree.c'),
                       ('frames', 'function, local, gen01, gen02 in bytecode.c; blockbeg, blockend '
                        'in gen.c'), ('data', 'defconst, defstring, defaddress, space, global, '
                                      'segment, export, import in bytecode.c'),
                       ('names', 'defsymbol, address in bytecode.c')],
      technique=AI + ': text printed and cells written on every path of each back end function, '
      'compared with the text the arguments call for; agreement of mnemonics with q3asm\'s table',
      note='All 106 operators with all operand sizes; functions of up to three parameters of five '
      'kinds; nested nodes and lists by induction (the recursive call is a contract). Debug output '
      '(-g) is not part of it. Sound up to: clang/opt front-end passes, x86-64 host.'),
 dict(id='C32', title='rcc simplifies expressions without changing their value',
      statement='Constant folding and the algebraic rewriting of expressions in the compiler never '
      'change what the program computes: the tree that replaces an operator has, for all operand '
      'values, the value of that operator as the virtual machine computes it (32 bit wrap-around, '
      'signed or unsigned as the type says), and still evaluates the operands that have side '
      'effects. Integer constants are kept in the normal form of their type (sign or zero '
      'extended), so later folding and the emitted assembly see the right number. Signed '
      'overflow is not folded outside constant expressions, where it is diagnosed. Operators '
      'whose operands are integer constants become constants (or are diagnosed), so every integer '
      'constant expression is one; intexpr() returns the value of that constant. The compiler '
      'itself never divides by zero, and constant offsets from addresses are exact.',
      over=['programs', 'inputs'], q='all operators and type sizes, all constant and non-constant '
      'operands', why='The tests compile a few programs that hit few of the rewrites; a wrong fold '
      'needs particular constants (boundary values, negative operands, large shifts).',
      files=LCC, mech=[('folding and rewriting', 'simplify in simp.c'),
                       ('overflow guards', 'addi, subi, muli, divi in simp.c'),
                       ('constants', 'cnsttree, consttree in enode.c; extend, ones in c.h'),
                       ('helpers', 'ispow2, addrtree in simp.c'),
                       ('constant expressions', 'constexpr, intexpr in simp.c')],
      technique=AI + ': value of the returned tree compared with the value of the operator on '
      'each path of simplify()',
      note='168 combinations of operator and type sizes, every path. Floating point folding is '
      'compared as operations on host doubles (excess precision is allowed in C); the operands '
      'of a node have the type its operator says. Sound up to: clang/opt front-end passes, x86-64 '
      'host.'),
 dict(id='C36', title='rcc types operators and converts operands as C prescribes',
      statement='For every operator of C and every combination of operand types the tree the '
      'compiler makes has the type C gives the expression and the value of the operator applied '
      'to the operands after the usual conversions, as 32 bit integers, pointers and floats: '
      'arithmetic conversions and promotions, casts, pointer arithmetic and differences scaled '
      'by the size of the element, comparisons (unsigned if C says so), the conditional '
      'operator, assignments and compound assignments including bit fields (the value is that '
      'of the field), increments, sizeof, unary operators, arguments converted to the '
      'parameter (promoted without a prototype) and the values of calls. Operands C does not '
      'allow are diagnosed, those it allows are not. Operators are parsed with the node and the '
      'precedence that belongs to them.',
      over=['programs', 'inputs'], q='all operators, all combinations of operand types',
      why='The tests compile a few programs with few of the thousands of type combinations; a '
      'wrong conversion shows for particular operand values only (negative, above the range).',
      files=LCC, mech=[('binary operators', 'addtree, subtree, multree, bittree, shtree, '
                        'cmptree, eqtree, andtree in enode.c'),
                       ('assignment', 'assign, asgntree in enode.c; incr in expr.c'),
                       ('conversions', 'cast, promote, binary, pointer, value, cond in expr.c'),
                       ('unary', 'unary, postfix in expr.c'),
                       ('calls', 'call, calltree in enode.c'), ('tables', 'token.h')],
      technique=AI + ': denotation and type of the tree built on each path, per operator and '
      'combination of operand types, compared with C',
      note='About 8650 combinations, every path; by induction over the builders, whose contract '
      'is used for the trees they build for each other. char, short, int, long, float, double, '
      'enums, structs, pointers to eight kinds of types. Calls with one argument. Evaluation '
      'order inside the dags is not part of it. Sound up to: clang/opt front-end passes, '
      'x86-64 host.'),
 dict(id='C37', title='rcc turns expression trees into nodes that compute the same',
      statement='The lists of nodes the compiler makes for a function evaluate what its expression '
      'trees say: for every tree operator the nodes compute its value from its operands, conditions '
      '(&&, ||, ?:, !, comparisons) branch to the label due and evaluate their operands exactly when '
      'C does, assignments store (bit fields: the bits of the field and no others, the value of the '
      'assignment being that of the field), calls get their arguments converted, structs are copied '
      'whole. A value computed before is used again only where it was computed on every path to that '
      'place and nothing it depends on may have changed since (assignments to the object or through '
      'pointers, calls, volatile objects). Values used more than once go through temporaries that '
      'hold them. The lists keep their order; labels, jumps, switch tables and parameters of callers '
      'and callees are made as the statements ask for; chains of equal labels end.',
      over=['programs', 'inputs'], q='all operators of trees, as value and as condition',
      why='Tests compile few programs; wrong reuse needs particular sequences of expressions, '
      'nestings of conditions and aliasing objects.',
      files=LCC, mech=[('listing', 'listnodes, node, list, reset, kill in dag.c'),
                       ('undoing the dag', 'undag, visit, prune, replace, prune1 in dag.c'),
                       ('code lists', 'gencode, emitcode, fixup, equatelab in dag.c'),
                       ('switch', 'code Switch in emitcode; swcode tables in stmt.c')],
      state=[('buckets', 'table of values that can be used again', 'dag.c'),
             ('forest', 'list of nodes of the basic block', 'dag.c')],
      technique=AI + ': sequence of nodes made and table operations on every path of listnodes '
      'unified with the sequence the tree calls for; list invariants of the other functions',
      note='All tree operators, value/true/false contexts, bit fields of all widths at three '
      'offsets; by induction over subtrees, whose listing is a contract. Lists of up to four nodes, '
      'hash chains of up to three. Order of unsequenced operands is free. Sound up to: clang/opt '
      'front-end passes, x86-64 host.'),
 dict(id='C38', title='rcc lays out objects and writes initialisers as declared',
      statement='Members of a struct are placed in order at multiples of their alignments without '
      'sharing memory, members of a union at 0; bit fields get the width declared, lie within one '
      'unit and share no bits; sizes are multiples of alignments and hold every member; sizes that '
      'do not fit are diagnosed. Initialisers set every member and element to the value given for it, '
      'at its place, and everything else to zero: arrays of unknown size get as many elements as '
      'there are values, too many values and values that are no constants are diagnosed, of a union '
      'the first member is set, bit fields hold their bits where reading them looks. Every object '
      'is defined once, with its size, in its segment (constant, initialised, zero), exported exactly '
      'if it has external linkage; functions and objects only declared are imported. Types are '
      'interned, compatible and composite as C defines.',
      over=['programs', 'inputs'], q='all types, initialisers and declarations',
      why='Tests contain few layouts; wrong offsets and padding need particular sequences of '
      'members, widths, nestings of braces and missing values.',
      files=LCC, mech=[('layout', 'fields in decl.c'),
                       ('initialisers', 'initializer, initarray, initstruct, initfields, genconst in '
                        'init.c'),
                       ('definitions', 'dclglobal, dcllocal, initglobal, doglobal in decl.c'),
                       ('types', 'type, eqtype, compose, array, qual in types.c')],
      state=[('t', 'the token ahead', 'lex.c'), ('curseg', 'current segment', 'init.c')],
      technique=AI + ': offsets and sizes as linear terms, bits of written words traced to the bits '
      'of the values, calls that write compared with those the type calls for',
      note='By induction over the structure of types: what is written for a member is a contract '
      'with the recursive call. Structs of up to four members (positions and sizes symbolic, bit '
      'fields of all widths in pairs), arrays of any size with up to four values at hand; token '
      'sequences up to the next separator. Symbol table functions are contracts. Sound up to: '
      'clang/opt front-end passes, x86-64 host.'),
 dict(id='C39', title='rcc statements transfer control as C defines',
      statement='The code of if, while, do, for, switch, break, continue, goto, labels and return '
      'evaluates the conditions and executes the bodies in exactly the order C defines: loops test '
      'where they have to, break leaves the innermost loop or switch, continue the innermost loop, '
      'return reaches the end of the function after the value has been computed and converted, a '
      'switch reaches the label of the case whose value, converted to the type of the controlling '
      'expression, is equal, else default, else the end, for every set of cases (gaps, dense runs, '
      'duplicates are diagnosed). break, continue, case and default outside of a statement they '
      'belong to, labels defined twice or never, and values returned from void functions are '
      'diagnosed. Shortcuts (jumps to jumps, unreachable code, labels without uses, the first test of '
      'a for statement) do not change where control goes.',
      over=['programs', 'inputs'], q='all statements, all nestings, all sets of cases',
      why='Tests compile few programs; wrong jumps need particular nestings and sets of cases.',
      files=['lcc/src/stmt.c'],
      mech=[('statements', 'statement, ifstmt, whilestmt, dostmt, forstmt, swstmt, stmtlabel, retcode'),
            ('selection', 'caselabel, swgen, swcode, cmp'),
            ('jumps', 'branch, definelab, equatelab, reachable, code'),
            ('first test', 'foldcond')],
      state=[('codelist', 'code of the function, a doubly linked list', 'stmt.c'),
             ('swp', 'cases collected so far', 'stmt.c'), ('ref', 'uses of a label', 'sym.c')],
      technique=AI + ': flow graph of the code emitted for each statement compared with the graph the '
      'statement calls for (bisimulation); selection code followed per position of the value',
      note='By induction over statements: what a substatement emits is a contract. Switches of up to '
      'five runs, tables of up to three other cases, code lists of up to four elements around a jump '
      'or label. Compound statements, function entry and debugging output (-g) are not covered. '
      'Sound up to: clang/opt front-end passes, x86-64 host.'),
 dict(id='C40', title='rcc: names, constants, labels, lists and memory',
      statement='While rcc compiles, a name stands for its innermost visible declaration: a declaration '
      'hides those of enclosing scopes in the same name space until its scope ends, where exactly the '
      'declarations of this scope disappear and the hidden ones are visible again; names are the same iff '
      'all their characters are the same. Two constants are one symbol only if their types are equal and '
      'their values have the same bits, and are one symbol then; each string literal has one object. '
      'Labels and generated names are never given out twice, a label number always yields the same '
      'symbol. Symbols needed after a function are not in memory released at its end. Lists keep their '
      'elements in the order they were appended, and their vectors hold all of them, once, followed by '
      'NULL. Memory obtained from an arena is aligned, as large as requested, shares no byte with other '
      'memory in use and stays valid until the arena is released.',
      over=['programs', 'inputs', 'histories'], q='all declarations, names, constants and allocations',
      why='Tests compile few programs; wrong sharing or scoping needs colliding hashes, equal names in '
      'several scopes, full blocks or particular sizes.',
      files=['lcc/src/sym.c', 'lcc/src/string.c', 'lcc/src/list.c', 'lcc/src/alloc.c'],
      mech=[('names', 'lookup, install, relocate, table, foreach, enterscope, exitscope'),
            ('constants', 'constant, intconst, mkstr'), ('labels', 'genlabel, findlabel, genident, temporary'),
            ('strings', 'string, stringn'), ('lists', 'append, length, ltov'),
            ('memory', 'allocate, newarray, deallocate')],
      state=[('identifiers, types, globals', 'tables of symbols by level', 'sym.c'),
             ('buckets', 'strings known so far', 'string.c'), ('arena, freeblocks', 'memory in use and free', 'alloc.c')],
      technique=AI + ': the functions that keep these tables are interpreted on symbolic chains and arbitrary '
      'keys; an entry is looked for in the chain it was entered in, and equality implies sharing and conversely',
      note='Chains of up to three tables and three entries, lists of up to three elements, arenas with up '
      'to two free blocks, strings of 0-3 and 270 characters (thorough: 4200) with arbitrary contents; the keys, '
      'hash slots, sizes (below 2 GB) and contents are symbolic. findtype, locus, use and vtoa only serve '
      'debugging output and are not covered. Sound up to: clang/opt front-end passes, x86-64 host.'),
 dict(id='C41', title='rcc: declarations mean the types C gives them',
      statement='rcc gives a declaration the type C gives it. Type specifiers and qualifiers in any order mean '
      'the type their set stands for; sets that C gives no meaning, repeated qualifiers or several storage classes '
      'are diagnosed; a typedef name is a type exactly where no other type specifier precedes it. A declarator '
      'means pointers, arrays and functions in the order C prescribes, with the qualifiers and the sizes written; '
      'an array size that is not positive is diagnosed; the name declared is the one written, and the parameters '
      'of a function being declared are those of its own list, not of another in the declaration. A parameter '
      'list yields its parameters in order, with their names, types and storage classes, arrays and functions as '
      'pointers; "void" alone means none and is diagnosed elsewhere; "..." is kept; old-style lists declare '
      'names only. The scopes a list opens are closed. An enumerator is one more than its predecessor '
      'unless its value is given; values above INT_MAX are diagnosed. A tag with a body declares a new type in its scope '
      'or completes the one declared there; a tag alone names the visible type; "struct tag;" declares a new one in an '
      'inner scope; a second definition in one scope is diagnosed. Each declarator of a declaration is declared with its '
      'own type and the class given, a typedef as a name of the type in its scope; a declarator of function type with '
      'parameters in front of a body or of old-style declarations is a definition. A block reads '
      'declarations, then statements, in a scope of its own, and lists each of its variables once.',
      over=['programs'], q='all declarations',
      why='Tests compile few programs; a wrong type needs a particular combination or order of specifiers, '
      'nesting of declarators, or scopes.',
      files=['lcc/src/decl.c', 'lcc/src/types.c'],
      mech=[('specifiers', 'specifier'), ('declarators', 'dclr, dclr1, tnode'), ('parameters', 'parameters, dclparam, exitparams'),
            ('enumerations', 'enumdcl'), ('tags', 'structdcl, newstruct'),
            ('declarations', 'decl, typename, oldparam'), ('blocks', 'compound')],
      state=[('t, tsym, token', 'the current token', 'lex.c'), ('level', 'the current scope', 'sym.c')],
      technique=AI + ': each function is interpreted on token sequences, the calls to the others replaced by their '
      'contracts; the type built, the symbols entered and the tokens read are compared with a table of C\'s grammar',
      note='Specifiers: all sequences of up to three type words (four for long long), each with each class and qualifier; '
      'declarators by induction over dclr1 with up to two suffixes, dclr with up to three levels; lists of up to '
      'three parameters; up to three enumerators with symbolic values. Members of structures are covered by C38 '
      'as far as their layout is; funcdefn and error recovery are excluded; blocks with up to four variables. '
      'Sound up to: clang/opt front-end passes, x86-64 host.'),
]

NA = [
 dict(id='C90', title='Bytecode calls terminate or use bounded time',
      statement='A call into a module ends within a bounded number of instructions.',
      over=['programs'], q='all modules', why='unbounded', files=['src/vm/vm.c'],
      mech=[('none', 'VM_CallInterpreted')],
      reason='The VM deliberately has no instruction budget; nothing in the code makes it hold.'),
 dict(id='C91', title='Compiled programs behave as their C source',
      statement='A C program compiled by the tool chain and run in the VM computes what the C '
      'standard says.', over=['programs'], q='all C programs', why='unbounded',
      files=['lcc', 'q3asm/q3asm.c', 'src/vm/vm.c'], mech=[('compiler', 'lcc/src')],
      reason='Whole-compiler correctness quantifies over program meanings; the clauses with a '
      'structural reading (opcode tables, type sizes, constant folding, operator typing, frame layout, '
      'error propagation) are claimed as separate properties.'),
]
NOTES = ('All checks are static: python3 check.py <id> compiles /repo to LLVM IR (never runs it) '
         'and analyses it. No set-up is needed.')
