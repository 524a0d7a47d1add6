prop('C01', 'Matching never modifies the scanner, the text or process-wide data',
 'Initialising a state, feeding characters or ranges, testing acceptance or deadness, searching for prefixes and suffixes, and querying accepted expressions or state numbers through a const scanner of any kind write nothing but the caller\'s state object and storage it owns. The scanner object, the memory it points to, the text and every process-wide object stay untouched, so one scanner can serve any number of threads and a read-only mapped scanner can be matched.',
 ['schedules', 'inputs', 'histories'], 'for every scanner kind, every matching operation, every input and any interleaving of threads sharing the scanner',
 'A test would have to race threads or map pages read-only for each operation of each scanner; the existing tests match single-threaded from writable memory and look only at results.',
 ['pire/run.h', 'pire/scanners/multi.h', 'pire/scanners/simple.h', 'pire/scanners/slow.h', 'pire/scanners/loaded.h', 'pire/scanners/half_final.h', 'pire/extra/count.h', 'pire/extra/capture.h'],
 [('const matching interface of every scanner', 'Initialize/Next/TakeAction/Final/Dead/StateIndex/AcceptedRegexps in pire/scanners, pire/extra'), ('runners', 'pire/run.h')],
 'interprocedural mod/ref and pointer-origin dataflow over LLVM IR of the whole library',
 'Decides the whole write set of every matching entry point (over-approximated through all callees and virtual targets). Trusts clang\'s IR, libstdc++ const-correctness of bodiless functions, and that sub-64-bit integers carry no pointers.')
prop('C02', 'Library keeps no unsynchronised process-wide mutable state',
 'Any two library calls on unrelated objects may run concurrently: no library function writes a static or namespace-scope object except during its one-time, compiler-guarded initialisation. Character-class tables, encodings, null scanners and code-page tables are published once and never written again.',
 ['schedules', 'histories'], 'for every interleaving of library calls made from any number of threads, from program start',
 'Tests are single-threaded; a data race on a lazily built table needs a particular interleaving of first uses to show.',
 ['pire/stub/singleton.h', 'pire/classes.cpp', 'pire/encoding.cpp', 'pire/re_lexer.cpp', 'pire/scanners/multi.h', 'pire/scanners/simple.h', 'pire/scanners/slow.h', 'pire/scanners/loaded.h', 'pire/stub/codepage.h'],
 [('guarded one-time construction', 'pire/stub/singleton.h Singleton()'), ('null scanners', 'Null() of each scanner'), ('encodings', 'pire/encoding.cpp')],
 'whole-library effect analysis for writes to static storage outside guarded initialisation',
 'Every function reachable from any externally visible entry is analysed; reports each store/modifying call whose target is a global named in that function. Writes through pointers to globals that travelled through other objects are out of scope.')
prop('F02', 'Operations never modify operands they take read-only',
 'Building operations that take an automaton, scanner or pattern object as a const operand (concatenation, union, intersection, complement, repetition, import, approximate matching, glueing, copying, assignment, conversion and counting-scanner construction) leave every field of that operand, and the storage it refers to, as it was.',
 ['inputs', 'histories'], 'for every operand value and every operation with a const operand',
 'Tests discard operands after one use or compare only the result; a write behind const (through a cast, a mutable field or a raw buffer pointer) would show only when the operand is used again.',
 ['pire/fsm.h', 'pire/fsm.cpp', 'pire/approx_matching.cpp', 'pire/scanners/multi.h', 'pire/extra/count.cpp', 'pire/easy.h'],
 [('operators of Fsm', 'pire/fsm.cpp'), ('Glue()', 'pire/scanners/multi.h, pire/extra/count.cpp'), ('copy constructors', 'pire/scanners/*.h')],
 'interprocedural mod/ref dataflow restricted to const operands',
 'Write sets of 70+ entry points with const operands. Writes through pointers stored in other heap objects first are not followed (precision over recall there).')
prop('V01', 'Swapping, copying, moving and assigning carry every part of a value',
 'After two scanners, automata, bit sets or pattern values are swapped, each holds in every part exactly what the other held, and stays usable and destructible. A copy, or the target of an assignment or move, holds every part the source held - tables, tags, per-expression counts, reporting data, size, start state - in storage of its own unless the source itself only refers to memory it does not own; this holds for empty values too. Assigning a value to itself leaves it as it was.',
 ['inputs', 'histories'], 'for every value of every scanner kind, Fsm, bit set and type-erased scanner handle',
 'Tests copy or swap a few scanners and match a few strings afterwards; a part that is not carried over shows only for scanners that use it (tags, counters, SlowScanner action data, empty scanners, mapped images).',
 ['pire/scanners/multi.h', 'pire/scanners/simple.h', 'pire/scanners/slow.h', 'pire/scanners/loaded.h', 'pire/scanners/half_final.h', 'pire/extra/count.h', 'pire/extra/capture.h', 'pire/fsm.h', 'pire/fsm.cpp', 'pire/any.h'],
 [('Swap()/copy constructors/operator= of scanners', 'pire/scanners/*.h, pire/extra/*.h'), ('Fsm copying', 'pire/fsm.h'), ('DeepCopy', 'pire/scanners/multi.h, pire/scanners/slow.h')],
 'path-sensitive abstract interpretation of LLVM IR: final value of every leaf field compared with the source leaf',
 'Every path of every special member and Swap is enumerated on normalised IR with symbolic field values; each leaf (from debug info) must end as the source leaf, or as the same position relative to fresh storage filled from the source. Standard containers are modelled by their documented semantics.')
IO_FILES = ['pire/scanner_io.cpp', 'pire/scanners/common.h', 'pire/align.h', 'pire/stub/saveload.h', 'pire/scanners/multi.h', 'pire/scanners/simple.h', 'pire/scanners/slow.h', 'pire/scanners/loaded.h', 'pire/extra/count.cpp']
prop('S01', 'A saved scanner is restored part by part, and reading stops where saving stopped',
 'Whatever state a scanner of any kind is in when saved (built in memory, itself mapped from memory, empty), Load from that stream and Mmap of that data at an aligned address with at least its length accept it and consume exactly the bytes Save wrote. Every stored number, the start state and every table of the result come from the very place the same part of the saved scanner was written to, nothing of the target\'s previous value remains, and tables the result points to lie in the mapped data or in storage it owns.',
 ['inputs', 'histories'], 'for every scanner of every kind, every alignment remainder of its tables and every combination of Save, Load and Mmap',
 'Tests save a few scanners whose table sizes happen to be aligned in some way, never save a mapped scanner and never look behind the image; a shifted, forgotten or swapped table shows only for particular sizes and kinds.',
 IO_FILES, [('Save/Load', 'pire/scanner_io.cpp, pire/scanners/multi.h ScannerSaver, pire/extra/count.cpp'), ('Mmap', 'pire/scanners/*.h, pire/extra/count.cpp'), ('padding', 'pire/align.h')],
 'symbolic agreement of serialisation formats: every Save path turned into a token sequence, every Load/Mmap path replayed against it',
 'Every (Save path, Load or Mmap path) pair of every kind is compared on normalised IR with symbolic sizes and alignment. Nonrelocatable scanners are compared by their numbers and consumed length only (their tables are converted). Assumes what V01 decides about the in-memory layout, that SlowScanner has one row per (state, letter), that an action table starts with its own length, and that SlowScanner targets are configured with the same need_actions.')
prop('S02', 'Truncated images and streams are rejected, and nothing behind their end is read',
 'Mmap of any scanner kind never reads a byte at or behind ptr + size, whatever the bytes are, and returns only if everything it consumed lies within size; otherwise it throws. Load checks that the stream delivered every item before the item is used or anything further is read or allocated, and throws if it did not.',
 ['inputs', 'faults'], 'for every byte string, every size passed to Mmap and every point at which a stream may end or fail',
 'Tests feed complete images; an over-read of a few bytes is invisible without a guard page, and each cut point needs its own test for each scanner kind.',
 IO_FILES, [('Mmap', 'pire/scanners/*.h, pire/extra/count.cpp'), ('MapPtr/AdvancePtr/AlignPtr', 'pire/scanners/common.h, pire/align.h'), ('LoadPodType/LoadPodArray', 'pire/stub/saveload.h')],
 'path-sensitive bounds dataflow: every image access must be covered by a length check made before it; typestate of stream reads',
 'All accepting and rejecting paths of every Load and Mmap. The bound arithmetic treats sizes as mathematical naturals except that a remaining-size subtraction must itself be covered. Table contents (state numbers inside the tables) are not validated by pire and out of scope. A size field so large that a product overflows is out of scope.')
prop('S03', 'Only data of the right format, version and kind is accepted',
 'Load and Mmap of every scanner kind return normally only if the data starts with the magic number, a supported version (6 or 7), this machine\'s pointer and word sizes, a type tag that kind reads and the exact size of its fixed part. Data saved by a scanner kind of another format, including a scanner with another shortcutting type, is never accepted, and Mmap never accepts a misaligned address.',
 ['inputs', 'histories'], 'for every byte string and every ordered pair of scanner kinds',
 'Tests try two or three corrupted headers; there are 15 kinds, two ways of reading and hundreds of combinations of kind, state and field.',
 IO_FILES, [('Header::Validate', 'pire/scanners/common.h'), ('signatures', 'pire/scanners/multi.h'), ('CheckAlign', 'pire/scanners/common.h')],
 'path-sensitive must-check analysis of every accepting path, plus replay of every kind\'s Save paths against every other kind\'s readers',
 'Must-facts on all accepting paths and a full matrix of foreign images. CountingScanner, AdvancedCountingScanner and CapturingScanner share one type tag by design, half-final scanners share that of Scanner, and both directions between the plain and the NoGlueLimit counting format count as the same family.')
prop('S04', 'Failed Load, Mmap or assignment leaves the target unchanged',
 'If Load, Mmap or assignment of a scanner of any kind ends by throwing - wrong or cut data, a failing stream, failed allocation - the target still holds exactly what it held before: no path modifies the target and afterwards throws or calls something that may throw.',
 ['faults', 'inputs'], 'for every failure point of every Load, Mmap and assignment',
 'Tests check that an error is reported but do not use the target afterwards, and do not inject allocation or stream failures.',
 IO_FILES + ['pire/extra/count.h', 'pire/extra/capture.h', 'pire/scanners/half_final.h'], [('Load/Mmap/operator=', 'pire/scanners/*.h, pire/scanner_io.cpp, pire/extra/count.*')],
 'effect ordering on all paths: no may-throw event after the first write to the target',
 'Every path of every operation on normalised IR; anything not proved nounwind by the compiler counts as throwing.')
prop('R02', 'Runners feed every byte exactly once and report the right positions',
 'Run (over one scanner, a pair of scanners, or through the Runner helper) and Matches hand a scanner every byte of the text exactly once, in order, as its unsigned value, each transition followed by its action on the state it led to, whatever the alignment and length of the text, and leave the state reached in the caller\'s state; opening and closing marks are fed exactly once, where requested or called for. Longest and shortest prefix and suffix searches do the same (suffixes backwards), may stop early only in a dead state or, for shortest ones, at the first accepting position, and return the last or first position whose state is accepting, or null if there is none. No memory outside the machine words that hold the text is read.',
 ['inputs'], 'for every text of every length at every alignment, and every scanner',
 'Tests run a few short texts at whatever alignment the allocator gives; a byte lost or repeated at a word boundary, a sign-extended byte or a missed write-back shows only for particular alignments, lengths and bytes.',
 ['pire/run.h', 'pire/align.h', 'pire/scanners/pair.h', 'pire/platform.h'],
 [('RunChunk/SafeRunChunk/DoRun/AlignedRunner', 'pire/run.h'), ('LongestPrefix/ShortestPrefix/LongestSuffix/ShortestSuffix/Matches', 'pire/run.h'), ('RunHelper', 'pire/run.h'), ('pairs', 'pire/scanners/pair.h')],
 'abstract interpretation of the runners over an uninterpreted scanner, with a ghost automaton of what the scanner has seen',
 'All 256 combinations of start and end alignment modulo 16, all lengths (loops abstracted to a fixed point over the distance to the start and the end of the text). The scanner is uninterpreted and assumed not to write the text or the runner\'s variables. Little-endian x86-64 configuration, release build.')
prop('R03', 'Shortcuts of the multi-regexp scanners never skip a byte that matters',
 'Whenever a run or a prefix search over a multi-regexp scanner (relocatable or not) passes over bytes without stepping through them, the state it is in has no transition to another state on any of those bytes, no word outside the text is inspected, and a search asks whether the position reached is accepting or dead after the jump just as after a step. The exit information stored with each state when a scanner is built or glued lists every letter that leaves the state, for all byte values of that letter, or says that no shortcut is possible.',
 ['inputs'], 'for every scanner of these kinds, every state, and every text at every alignment',
 'Tests run few texts long enough and aligned so that shortcuts are taken, on states with at most a few exits; a byte missed in one lane, at one alignment, above 127, or after the last mask goes unnoticed.',
 ['pire/scanners/multi.h', 'pire/run.h', 'pire/platform.h', 'pire/align.h'],
 [('ExitMasks/MaskChecker/AlignedRunner', 'pire/scanners/multi.h'), ('BuildShortcuts', 'pire/scanners/multi.h'), ('CheckBytes', 'pire/platform.h')],
 'abstract interpretation: soundness of row headers as written by the builders, and of every skip against the header and the words inspected',
 'Both multi-regexp scanners with exit masks. Header constants are derived from the analysed writers. Run is analysed for all 256 alignments; prefix searches for 25 of them in the quick tier and all in the thorough tier. Loops are abstracted to a fixed point, so lengths are unbounded.')

prop('G03', 'Counting scanners count each expression on its own, up to their capacity',
 'In a counting scanner, whatever the other expressions do in the same step, an increment for an expression adds one to that expression\'s current count and a reset clears it while keeping the best count so far (the advanced kind resets before it increments, the plain kind after); the reported result is the larger of current and best count, and a fresh state has all counts at zero. Gluing keeps every action bit with its own expression, renumbered by the number of expressions on the left, and refuses (returning an empty scanner) exactly when the total exceeds what a state can count; the kind without such a limit keeps lists of expressions instead of bits, and gluing merges the lists of both sides, renumbered likewise.',
 ['inputs'], 'for every expression number, every combination of actions of the other expressions, and every reachable internal state of a counting state',
 'Tests count one or two expressions at a time and glue a handful; bits of neighbouring expressions interact only in actions that mention several of them, and the reset bookkeeping matters only after particular sequences.',
 ['pire/extra/count.h', 'pire/extra/count.cpp', 'pire/scanners/loaded.h'],
 [('TakeAction/PerformIncrement/PerformReset', 'pire/extra/count.h'), ('Glue', 'pire/extra/count.cpp')],
 'abstract interpretation, bit by bit, of the action code for one expression with all other bits unknown; fixed point over its abstract states',
 'All three kinds. For the kind without a limit on expressions, actions that are lists of expressions are tried with up to three expressions out of two number sets, and gluing with lists of up to three.')

prop('R04', 'Feeding one character to a deterministic scanner is a bounded amount of work',
 'For every deterministic scanner kind (the multi-scanner in all its variants, half-final, simple, capturing and counting scanners), moving to the next state on a character, applying the step\'s action, asking for acceptance, deadness or the state\'s number, and reading a count or a capture run a number of operations that depends neither on the text, nor on what was fed before, nor on the size of the expression: no unbounded loop, no recursion, no memory allocation, no exception, no call of unknown cost. Only the half-final kinds and the counting kind without glue limit walk a list in their action, and then only once over the one list that belongs to the current state or step.',
 ['inputs', 'histories'], 'for every scanner of these kinds, every state, every character and every text',
 'Running time is invisible to result-checking tests; a step that is slow, allocates or throws only in some states or after some history needs an expression and a text that reach it.',
 ['pire/scanners/multi.h', 'pire/scanners/simple.h', 'pire/scanners/loaded.h', 'pire/scanners/half_final.h', 'pire/extra/count.h', 'pire/extra/capture.h', 'pire/run.h'],
 [('Next/TakeAction/Final/Dead/StateIndex of every deterministic scanner', 'pire/scanners, pire/extra'), ('Step', 'pire/run.h')],
 'call-graph and natural-loop analysis over LLVM IR: forbidden effects unreachable from any per-character operation, loops only with constant bounds',
 'Initialize, AcceptedRegexps, Save/Load and the slow scanners are outside the property. In the two kinds that walk a list, the walk must be a single, un-nested loop that advances a variable by a constant on every turn.')

prop('D01', 'A compiled scanner has exactly the transitions of its automaton',
 'Compiling a finite automaton into a multi-scanner (in all its four variants), a simple scanner or a capturing scanner yields a scanner that starts in the automaton\'s initial state and moves, on every character of every letter class, to exactly the state the automaton moves to; in a capturing scanner the step also carries exactly the output of that transition. A state accepts exactly when it is final in the automaton; a multi-scanner state is reported dead exactly when the automaton calls it dead, and no kind calls a living state dead. Different states keep different state numbers. When a distance is given, the automaton is widened by it before it is made canonical.',
 ['inputs'], 'for every state, every letter class and every mark of the compiled table, over a set of small automaton shapes that covers accepting, dead, initial, outputs and class sizes',
 'Tests match a few texts against a few expressions; a table cell written wrongly for one class, a flag missed on the initial or last state, or a character left without its cell shows only for an expression and a text that reach it.',
 ['pire/fsm.h', 'pire/scanners/multi.h', 'pire/scanners/simple.h', 'pire/scanners/loaded.h', 'pire/extra/capture.h', 'pire/scanner.cpp'],
 [('BuildScanner, MakeScanner', 'pire/fsm.h'), ('SetJump/SetTag/SetInitial/FinishBuild of every kind', 'pire/scanners'), ('constructors taking an automaton', 'pire/scanners, pire/extra')],
 'abstract interpretation of the compilation from the LLVM IR over a modelled automaton, then of the scanner\'s own start, step, acceptance and deadness functions over the table it wrote',
 'Making the automaton canonical (determinization and minimization) and the widening itself are taken as given; half-final, counting and slow scanners are outside.')

prop('P02', 'Operators, groups and counts combine automata as the syntax says',
 'The automaton parsed from a sequence of letters, operators, groups and counts accepts exactly the words the syntax gives it: concatenation, alternation, intersection (&), complement (~), the dot, the begin and end marks, and the item repeated as often as its count allows ({n}, {n,}, {n,m}, *, +, ?), with the usual precedence; a capturing group and an item with a count are shown to the features once they are complete. A malformed sequence (an operator or count with nothing to apply to, an unbalanced parenthesis) is refused, and so is an expression whose characters cannot be read to the end; every intermediate value is released exactly once either way.',
 ['inputs'], 'for every sequence of tokens up to a length bound and for counts and groups beyond it, with every word up to a length bound',
 'Tests parse a few dozen expressions; a count one off for {n,} only, a precedence slip between two rare operators or a value leaked on an error path needs a particular combination of tokens.',
 ['pire/re_parser.y', 'pire/re_lexer.h'],
 [('grammar actions, AppendRange, ConvertToFSM', 'pire/re_parser.y'), ('Lexer::Parse', 'pire/re_lexer.cpp')],
 'abstract interpretation of the generated parser from its LLVM IR over token sequences, with the automata replaced by an abstract domain of languages cut off at a length, and every value given an owner',
 'Bounded in tokens and word length. What the automaton operations themselves do, and memory released when they throw, is outside.')

prop('P04', 'Characters, escapes, ranges and counts are read as documented',
 'The lexer with its default features (and with & and ~ enabled) reads an expression text as documented: an ordinary character stands for itself; an escaped special character is that character; an escape of any other character is a character class or is refused, as is a lone backslash at the end and an escaped character from U+00FF on; \\xHH and \\x{H...} are the character of that number, at most 10FFFF; [...] and [^...] are exactly the listed characters, both ends of a range included; {n}, {n,} and {n,m} are the counts written in ASCII digits, and anything else after {, an inverted count or an unterminated [...] is refused. Each reading takes exactly its own characters. Counts above 10^8 may be refused; unescaped characters U+F000 to U+F0FF are outside.',
 ['inputs'], 'for every character, and for a systematic set of several thousand escapes, ranges, hexadecimal characters and counts',
 'Tests use ordinary characters and a handful of ranges; an exclusive range end after \\x, a digit of another script taken for a number, or a count that overflows needs a particular text.',
 ['pire/re_lexer.cpp', 'pire/re_lexer.h'],
 [('Lexer::GetChar, DoLex', 'pire/re_lexer.cpp'), ('UnicodeReader, CharacterRangeReader, RepetitionCountReader', 'pire/re_lexer.cpp'), ('AndNotSupport', 'pire/re_lexer.cpp')],
 'abstract interpretation of the lexer from its LLVM IR over expression texts, with the input queue and the terms it makes modelled, compared with a specification of the syntax',
 'Character class tables (\\w, \\d, ...), encodings, case and glyph features, and the step from terms to parser tokens are outside.')

prop('G04', 'Capturing scanners report the first complete capture',
 'In a (deterministic) capturing scanner a fresh state has nothing captured and position zero, and every character advances the position by one; an action that begins a capture moves the begin to the current position, one that ends it sets the end, the begin wins when both are asked, and once both are set neither ever changes. A state reports a capture exactly when both ends are set, and the accessors return exactly these positions.',
 ['inputs'], 'for every state of a capture, every action and every position',
 'Tests capture from a handful of texts; overwriting a completed capture, or an end before a begin, needs texts where the expression matches twice in particular ways.',
 ['pire/extra/capture.h', 'pire/scanners/loaded.h'],
 [('TakeAction/Captured', 'pire/extra/capture.h')],
 'abstract interpretation of initialisation, step, action and accessors over symbolic positions, case by case on the action bits',
 'CapturingScanner only; which transitions carry which action is not decided. Positions are below the largest representable one.')

prop('U01', 'UTF-8 and Latin1 conversions are exact in both directions',
 'The UTF-8 encoding turns every code point up to U+1FFFFF into its standard shortest byte form and reads every well-formed sequence back as that code point, consuming exactly its bytes; a stray or missing continuation byte, an impossible lead byte or a sequence cut off by the end of the input is refused, and nothing behind the end is read. Latin1 reads and writes bytes below 0x80 as themselves, refuses bytes from 0x80 on, and writes other characters as nothing. Overlong forms, surrogates and numbers above U+10FFFF may be read or refused.',
 ['inputs'], 'for every code point and every non-empty sequence of up to five input bytes',
 'Tests convert a few characters of each length; an error in one bit of a lead byte, a missing check of the third continuation byte or an over-read shows only for particular sequences.',
 ['pire/encoding.cpp', 'pire/encoding.h'],
 [('Utf8/Latin1 ToLocal, FromLocal', 'pire/encoding.cpp')],
 'abstract interpretation, bit by bit, with case splits exactly where the code branches',
 'Both encodings shipped with the library. Code points above U+1FFFFF given to the encoder are not judged.')

prop('F10', 'Automaton operations build exactly the language they stand for',
 'For automata of any shape (determined or not, with or without letter classes, accepting the empty word, built by alternation, the same object on both sides) concatenation, alternation, intersection, complement, iteration, repetition, appending a letter, special letter or dot (Latin-1 and UTF-8, the latter by bytes of one to four byte sequences), prepending or appending anything, surrounding and reversal accept exactly the words these operations stand for; MakePrefix and MakeSuffix accept exactly the prefixes and suffixes of accepted words. Tags stay with their states and outputs with their transitions, and a result is marked as determined, or as an alternative to be extended in place, only if it is. Complement and intersection throw if an operand cannot be determined within its limit.',
 ['inputs', 'histories'], 'for every operand of every operation, whatever was done to it before',
 'Tests parse a few dozen patterns and match a few strings; an operation applied to an automaton that was determined, complemented or combined before takes branches no test pattern reaches.',
 ['pire/fsm.h', 'pire/fsm.cpp', 'pire/encoding.cpp', 'pire/partition.h'],
 [('operators and construction methods', 'pire/fsm.cpp'), ('dot of an encoding', 'pire/encoding.cpp AppendDot()')],
 'abstract interpretation over universal operands (one state per role, a letter of its own on every transition) with containers modelled; resulting automaton compared as a language with the specified one',
 'Rests on operations treating states and letters of an operand alike except for their role. Determine() and Minimize() are assumed to keep the language, which is not decided; AppendStrings and approximate matching are not covered.')
