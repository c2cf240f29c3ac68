TECH = 'contract-based deductive verification: VCs generated from the LLVM IR of /repo\'s functions, loop invariants checked, discharged by z3'
CLAIM['C01'] = (TECH, 'Every registered C function behind the list arithmetic builtins is proved against its contract for all operands and lengths. Trusted: clang front end and LLVM clean-up passes, the VC generator, z3, Arena::Allocate\'s contract (C14), libm functions as uninterpreted functions of the right precision.')
NA['C22'] = 'The property quantifies over source texts against a grammar. The scanner and parser are flex/bison-generated table-driven automata; their actions build heap trees of std::unique_ptr and std::string. A contract stating precedence needs an inductive predicate over parse stacks and heap trees, which the VC generator here (flat blocks, integers, floats) cannot express, and no installed deductive verifier accepts this C++.'
NA['C23'] = 'Non-interference of concurrent executions is a property of thread interleavings and of LLVM ORC JIT internals; the VC generator has no concurrency logic (ownership of shared LLVM state cannot be expressed as function contracts over the code in /repo).'
NA['C24'] = 'Relates whole compiled programs before and after LLVM optimisation and batching; the deciding code is LLVM\'s optimiser, not functions of /repo that could carry contracts.'

CLAIM['C02'] = (TECH, 'Comparison/bitmap/select functions (210) proved for all operands and lengths. FilterByBitmap (10 functions) is a bounded stand-in: its contract is compared with the compiled function on generated operands (stated bound in the evidence), because the selection invariant over a bit-scanning loop is beyond the solver within the time limit. Trusted: clang front end and LLVM clean-up passes, the VC generator, z3, Arena::Allocate\'s contract (C14).')

CLAIM['C03'] = (TECH, 'Sum, Avg, Max, Min, CountBits, GetAt, SortedMedian (61 functions) proved equal to the fold that names them, for all lists (Max/Min: no NaN). Median and CountDistinct (20 functions: nth_element, unordered_set) are bounded stand-ins compared with the contract on generated lists. Floating point operations are uninterpreted functions of the right precision, comparisons exact.')
CLAIM['C04'] = (TECH, 'Find, FindSorted, ListCompact*, ListGather and Bucketize over numeric lists proved for all operands (sorted search and bucketize: ascending list, no NaN in it). The string-list variants are bounded stand-ins compared with the contract on generated operands.')
CLAIM['C05'] = (TECH, 'GroupCount, GroupSum, GroupMax, GroupMin, GroupAvg and GroupKeys over numeric lists proved: every group\'s result is the fold over exactly its members, for all lists and group numberings within range. GroupIndex (hash table) and the string-list variants are bounded stand-ins compared with the contract on generated operands.')

ETECH = 'contract-based deductive verification of generated code: /repo\'s code generator is run, the function it emits is proved equal to the reference contract for all operand values (VCs discharged by z3)'
TV = 'translation_validation'
ETRUST = ' The module is captured where JitCore hands it to the JIT; LLVM\'s optimiser and object emitter are trusted. Floating point operations are uninterpreted functions of the right precision.'
CLAIM['C09'] = (ETECH, 'Every operator on every pair of the 23 value types (and literal operands) is compiled; the emitted function is proved equal to the promoted-type operation for all operand values, or its refusal is what the type rules demand. The finite dimensions are enumerated completely.' + ETRUST, TV)
CLAIM['C10'] = (ETECH, 'Every ordered pair of numeric types through cast builtins, branches, operators and stores, proved for all source values.' + ETRUST, TV)
CLAIM['C11'] = (ETECH, 'Each control node with every condition and branch type is proved for all operand values: value, and exactly the selected branch\'s calls once and in order. Nested shapes are enumerated or generated up to a stated size and labelled as such.' + ETRUST, TV)
CLAIM['C12'] = (ETECH, 'Every scalar math builtin on every numeric type (pair): the emitted function is proved to convert the arguments as documented and to apply the named operation once. llvm.sin, llvm.pow etc. are trusted to be those functions.' + ETRUST, TV)
CLAIM['C13'] = (ETECH, 'Promotion over every pair of types and expression trees: the reported type is proved to be the type of the value the emitted code returns.' + ETRUST, TV)
CLAIM['C21'] = (ETECH, 'Hand-written and generated programs of nested, branching and isolated blocks: every reference is proved to denote the definition the scope rules select, invalid programs are refused by validation. Program shapes are bounded.' + ETRUST, TV)
CLAIM['C06'] = (TECH, 'ListConcat, membership (numeric and string), numeric list casts, and the emitted Len and Truncate are proved for all operands and lengths. Bounded stand-ins compared with the contract on generated operands: Unique (hash set), sorting (std::sort), string list casts (std::to_chars/from_chars), CrossJoin and ZipConcat.')
CLAIM['C07'] = (TECH, 'StringConcat, StringCmp and the emitted StringLen proved for all operands (memcmp trusted). StringContains (memchr search loop) and the numeric conversions (std::to_chars/from_chars) are bounded stand-ins compared with the contract on generated operands.')
CLAIM['C04'] = (TECH, 'Find, FindSorted, ListCompact*, ListGather and Bucketize over numeric lists, and Find over string lists, proved for all operands (sorted search and bucketize: ascending list, no NaN in it). FindSorted and ListGather over string lists are bounded stand-ins compared with the contract on generated operands.')

CLAIM['C03'] = (TECH, 'Sum, Avg, Max, Min, CountBits, CountDistinct, GetAt and SortedMedian (71 functions) proved equal to the fold that names them, for all lists (Max/Min: no NaN). Median (10 functions: nth_element) is a bounded stand-in compared with the contract on generated lists. Hash containers enter as contracts of std::unordered_set (trusted). Floating point operations are uninterpreted functions of the right precision, comparisons exact.')
CLAIM['C04'] = (TECH, 'Find, FindSorted, ListCompact*, ListGather, Bucketize and the lookup tables over numeric lists, and Find and lookup over string lists, proved for all operands (sorted search and bucketize: ascending list, no NaN in it). FindSorted and ListGather over string lists are bounded stand-ins compared with the contract on generated operands. std::unordered_map enters as a contract (trusted).')
CLAIM['C05'] = (TECH, 'GroupIndex, GroupCount, GroupSum, GroupMax, GroupMin, GroupAvg and GroupKeys over numeric lists and GroupIndex over string lists proved: ids are dense in order of first appearance and every group\'s result is the fold over exactly its members, for all lists and group numberings within range. The string-list variants of GroupKeys are bounded stand-ins compared with the contract on generated operands. std::unordered_map enters as a contract (trusted).')
CLAIM['C06'] = (TECH, 'ListConcat, membership (numeric and string), Unique over numeric lists, numeric list casts, and the emitted Len and Truncate are proved for all operands and lengths. Bounded stand-ins compared with the contract on generated operands: Unique over strings, sorting (std::sort), string list casts (std::to_chars/from_chars), CrossJoin and ZipConcat.')
CLAIM['C08'] = (TECH, 'For every registered list and string function: each load and store proved inside an operand or a block the function allocated, stores never into an operand, for all operands and lengths. The functions that other checks list as bounded stand-ins are executed with guard pages around every operand and allocation instead (bounded).')
CLAIM['C19'] = (TECH, 'MurmurHash3_x86_32 proved equal to the published algorithm (a fold over 4-byte blocks, tail and finaliser) for every length and content; the ten list wrappers proved to hash all bytes of the list with the fixed seed and to return that value.')
for x in ('C08', 'C19'):
    NA.pop(x, None)
MTECH = 'contract-based deductive verification: path-wise VCs from the LLVM IR of /repo\'s member functions over a byte-level heap, loop invariants checked, discharged by z3; generated histories of the compiled class as bounded companion'
CLAIM['C14'] = (MTECH, 'Arena::Allocate, Reset, ReleaseChunks, RunFinalizers, Create, DestroyImpl and the destructor proved against contracts over the arena\'s invariant (the free window is exactly the unused tail of the last chunk): by induction over calls no two blocks overlap. Trusted: malloc returns fresh 16-byte aligned memory, std::vector growth and erase, a finalizer does not touch its arena. Sizes below 2^46 (the documented overflow precondition).')
CLAIM['C15'] = (MTECH, 'The reading side is proved for every byte string: each ArtifactReader function and DeserializeArtifact against the artifact layout (every read inside the bytes, every returned field and view inside the bytes and equal to what the layout says, inconsistent lengths and counts rejected). The writer (SerializeArtifact) is covered by the bounded companion only: written artifacts are read back and compared. Trusted: std::string and std::vector members.')
CLAIM['C16'] = (MTECH, 'All twelve Execute/ExecuteAt/ExecuteAll entry points, ExecContext::Clear and GetErrorMessage proved: the compiled code is called exactly once with the caller\'s arguments, success exactly if the context holds no error, messages taken before the context is cleared, value of the right type delivered, a caller\'s context empty afterwards. The compiled code is unknown (may leave any list of errors, return any value). Trusted: std::string/vector/variant members, Arena (C14), Status::ToString of a failed status is not empty.')
CLAIM['C17'] = (MTECH, 'Compile and LoadCompiled of both engines proved: every error return leaves no entry point, success leaves exactly the entry points and types of the code just produced by the engine\'s present core; every Execute entry point refuses to call without code. Trusted: JitCore::BuildAndLink/LoadObject deliver one entry point per program on success (they may fail at any step), DeserializeArtifact (C15), std containers.')
for x in ('C14', 'C15', 'C16', 'C17'):
    NA.pop(x, None)
