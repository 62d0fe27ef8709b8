PEND = 'check under construction: not claimed yet'

prop('V01', 'Interpreted arithmetic, conversions, stack and branch instructions',
 'In interpreted execution every arithmetic, bitwise, shift, comparison, conversion, constant, stack-shuffling, local-variable, increment, branch and switch instruction yields exactly the result, the next instruction and the operand-stack depth that the Java virtual machine specification defines, for all operand values and all encodings including the wide forms. Integer division or remainder by zero raises an arithmetic exception, and no operand value makes the virtual machine itself fail. Nothing but the documented operand-stack words and local variable is changed.',
 ['inputs', 'programs'], 'every operand value of every such instruction, every local index, branch offset, switch table and stack depth',
 'The Java tests execute a few dozen operand pairs; NaN comparisons, MIN_VALUE/-1, saturating conversions and wide indexes were wrong in the tree and every test passed.',
 ['src/interpret.cpp'], [('dispatch loop', 'interpret.cpp interpret3'), ('operand stack accessors', 'interpret.cpp push/pop/peek/setLocal...')],
 claim=True, note='Each instruction is one obligation set over the real dispatch loop: all operand values, indexes and stack depths; switch loops by inferred invariants (partial correctness: termination of the switch search is not shown).')

prop('V02', 'Interpreted array, field and type instructions check before they act',
 'In interpreted execution every array and field instruction reads or writes exactly the addressed element or field with the width and sign extension of its type. A null reference, an index outside [0,length), a negative array size, a failing cast or an element of the wrong class raises the corresponding exception and has no other effect. No array access touches memory outside the array.',
 ['inputs', 'programs'], 'every array length, index, stored value, field kind and receiver, including null',
 'The tests read and write small arrays at valid indexes; a wrong bound or sign extension shows only at particular indexes or values.',
 ['src/interpret.cpp', 'src/avian/machine.h'], [('array loads and stores', 'interpret.cpp interpret3'), ('field push/pop', 'interpret.cpp pushField')], claim=True, note='Each instruction, element kind, field kind and null/non-null receiver over the real dispatch loop; all lengths, indexes, values, offsets. multianewarray is proved for dimension counts 1-5 and 8 by complete unrolling (its loop bound is the operand), not for the others. The missing ArrayStoreException check is a listed known finding.')

prop('V03', 'Compiled code computes what the bytecode specifies',
 'When a method is compiled just in time, the intermediate operations the compiler front end generates for each arithmetic, comparison, conversion, local-variable, array and branch instruction denote the Java-specified function of its operands, including when operands are compile-time constants. Values evaluated at compile time equal the values run-time evaluation would produce.',
 ['inputs', 'programs'], 'every instruction, operand value and constant operand',
 'Constant operands and extreme values of each instruction are not in the tests: branches on negative constants were wrong and every test passed.',
 ['src/compile.cpp', 'src/codegen/compiler.cpp'], [('bytecode translation', 'compile.cpp compile(MyThread*, Frame*, ...)'), ('constant folding', 'codegen/compiler.cpp')], na=PEND)

prop('V04', 'Run-time helpers of compiled code match the Java operations they implement',
 'Each arithmetic, comparison and conversion helper that compiled code calls returns the value the Java specification gives for all argument values and never traps. The allocation, cast, monitor, class-literal, switch and lazily resolved field and method helpers act on exactly the entity the constant names, raise the specified exception exactly when required (null receivers, negative sizes, failed casts, members of the wrong kind, missing or abstract methods, division by zero) and change nothing else. No helper uses a reference that a collection inside it has made stale.',
 ['inputs'], 'every argument value of every helper, every collection point inside it',
 'The helpers are reached only through code the JIT emits for particular shapes; the tests pass a handful of values and load every class before it is used.',
 ['src/compile.cpp', 'src/codegen/runtime.cpp'], [('thunked helpers', 'compile.cpp divideInt/findVirtualMethodFromReference/setFieldValueFromReference/...'), ('arithmetic helpers', 'codegen/runtime.cpp')],
 claim=True, note='64 helper functions, each verified alone for all arguments; callees that allocate are contracts under which every heap object moves, so unprotected references fail an obligation. multianewarray helpers for dimension counts 1-5 and 8; the switch search and interface tables by inferred invariant and for tables of three interfaces respectively (bounded in the number of interfaces).')

prop('V05', 'Exceptions reach the first matching handler of the nearest frame',
 'When an exception is thrown, control transfers to the first entry of the throwing method\'s exception table that covers the throwing instruction and whose catch type accepts the exception, with the operand stack holding only the exception. If no entry matches, the search continues at the call instruction of the next outer frame.',
 ['inputs', 'programs'], 'every exception table (any number of entries and ranges), instruction position and exception class',
 'Tests contain a few try blocks; table order, range ends and nested catch-all entries are not sampled.',
 ['src/interpret.cpp', 'src/compile.cpp', 'src/avian/machine.h'], [('handler search', 'interpret.cpp findExceptionHandler'), ('compiled handler search', 'compile.cpp findExceptionHandler')], na=PEND)

prop('V06', 'The native encoder emits instructions with the requested meaning',
 'For every operation, operand size, register assignment, displacement and immediate the x86-64 back end accepts, the machine instructions it emits perform exactly that operation on exactly those operands. Branch and address fix-ups resolve to the requested targets.',
 ['inputs', 'programs'], 'all immediates and displacements, all register combinations, all operand sizes',
 'Only the encodings the test programs happen to need are exercised; boundary immediates and extended registers are not.',
 ['src/codegen/target/x86/operations.cpp', 'src/codegen/target/x86/encode.cpp', 'src/codegen/target/x86/fixup.cpp'], [('operation encoders', 'operations.cpp'), ('ModRM/SIB/REX', 'encode.cpp')], na=PEND)

prop('V07', 'A method descriptor is read as the class-file specification defines it',
 'For every well-formed method or field descriptor the virtual machine computes exactly the specified number and order of parameters, their kinds and sizes, the return kind, and the number of argument words including the receiver. It never reads beyond the end of the descriptor.',
 ['inputs'], 'every well-formed descriptor of any length',
 'Tests use a few dozen descriptors; multi-dimensional arrays of primitives, long class names and 255 parameters are not sampled.',
 ['src/machine.cpp', 'src/avian/machine.h', 'src/avian/java-common.h'], [('descriptor iteration', 'machine.h MethodSpecIterator'), ('footprint', 'machine.cpp parameterFootprint')], na=PEND)

prop('V08', 'Subtype tests agree with the Java type rules',
 'instanceof, checkcast, reflective assignability and array-store decisions succeed exactly when the Java subtype relation holds, for classes, interfaces, primitive arrays and reference arrays of any dimension. A null reference is an instance of nothing and casts to everything.',
 ['inputs', 'programs'], 'every pair of class descriptors: hierarchy depth, number of interfaces and array dimension unbounded',
 'The tests check a few hierarchies; array covariance, interface tables and primitive arrays are barely touched.',
 ['src/machine.cpp', 'src/avian/machine.h'], [('assignability', 'machine.cpp isAssignableFrom/instanceOf')], na=PEND)

prop('V09', 'Instance and static fields never overlap and are naturally aligned',
 'For every class, the offsets assigned to its instance fields are disjoint from each other and from all inherited fields, aligned to the field size and inside the instance size. The same holds for static fields within the class\'s static table, and the collector is told exactly which words hold references.',
 ['inputs', 'programs'], 'every sequence of field types and every superclass layout',
 'Tests declare few field-type sequences; overlap depends on the order and sizes of fields and the superclass remainder.',
 ['src/machine.cpp'], [('field layout', 'machine.cpp parseFieldTable')], na=PEND)

prop('V10', 'Text conversion between modified UTF-8 and UTF-16 is exact',
 'Decoding a well-formed modified UTF-8 constant or native string and encoding a Java string yield exactly the specified characters and bytes, whatever the mix of one, two and three byte forms (the null character is written as one zero byte and also read from its two-byte form). The computed lengths equal what the conversion writes, so no buffer is overrun.',
 ['inputs'], 'every string of any length over all 65536 code units',
 'Tests hold mostly ASCII; mixed-width strings, embedded zero and the width boundaries are not sampled.',
 ['src/machine.cpp', 'src/avian/machine.h', 'src/jnienv.cpp'], [('decoder', 'machine.cpp parseUtf8'), ('encoder', 'machine.cpp stringUTFChars')], claim=True, note='All ten function instances are proved for every length by inferred loop invariants over ghost position functions; element obligations are for one arbitrary index. If a rewritten loop has no invariant among the candidates, that function falls back to an exhaustive unrolling for up to 4 elements, reported as bounded.')

prop('V11', 'Array copy moves exactly the requested elements',
 'A system array copy moves exactly length elements from source to destination as if through a temporary, also when both are the same array. Null arguments, mismatched element types and any range outside either array raise the specified exception without changing anything.',
 ['inputs'], 'every pair of arrays, offsets and length, including negative and overflowing ones',
 'Tests copy a few ranges; offsets whose sum overflows and overlapping ranges are not sampled.',
 ['src/avian/classpath-common.h', 'src/jnienv.cpp'], [('arraycopy', 'classpath-common.h arrayCopy')], claim=True, note='Proved through the native entry point for every pair of array lengths, offsets and length, element sizes 1-8 and references, one array or two, and every class mismatch; the missing element type check between reference arrays is a known finding.')

prop('V12', 'Internal tables, lists and trees behave as mathematical maps and sequences',
 'The runtime\'s hash table, linked list, growable vector and ordered tree return exactly what was last stored for a key, enumerate every stored element, and keep their representation invariants through any sequence of insertions, removals and resizes.',
 ['inputs', 'histories'], 'every sequence of operations, every hash function and key set',
 'They are only exercised indirectly by class loading; resize and rotation paths depend on the key set.',
 ['src/util.cpp', 'src/avian/util.h'], [('hash map', 'util.cpp hashMapFind/hashMapInsert/hashMapResize'), ('tree', 'util.cpp treeInsert'), ('vector', 'util.cpp vectorAppend')], na=PEND)

prop('V13', 'Native-interface array and string accesses are bounds checked and exact',
 'Native-interface calls that copy a region of a primitive array or string copy exactly the requested elements when the region is valid; otherwise they raise the specified exception and write nothing. Calls that hand out or take back all elements of an array or string transfer exactly those elements according to the release mode, and object-array element access reads or writes exactly the indexed element.',
 ['inputs'], 'every array or string length, start and length including negative and overflowing ones, every release mode',
 'The tests call few of these entry points with valid regions only.',
 ['src/jnienv.cpp'], [('region accessors', 'jnienv.cpp Get*ArrayRegion/Set*ArrayRegion/GetStringRegion'), ('element accessors', 'jnienv.cpp Get*ArrayElements/Release*ArrayElements')],
 claim=True, note='43 functions proved for all lengths, offsets and contents. String conversion itself is V10, used here by contract. The store check of SetObjectArrayElement is not part of this property.')

prop('V14', 'Archive lookup finds exactly the stored entries, safely on corrupt archives',
 'Looking up a name in a class-path archive finds the entry with that name whenever the archive contains it and nothing else, and returns its contents at the offset, size and compression the archive records. A truncated or corrupt archive never causes an access outside the file.',
 ['inputs'], 'every archive: any number of entries, names, comment lengths and field values',
 'The tests open one well-formed archive; comments, extra fields, hash collisions and corrupt headers are not sampled.',
 ['src/finder.cpp', 'src/avian/zlib-custom.h'], [('central directory', 'finder.cpp JarIndex')], na=PEND)

prop('V15', 'The collector\'s object walk visits exactly the reference words of an object',
 'When the collector scans, copies or sizes a heap object it visits every reference word of the object exactly once and no other word, and computes the object\'s size exactly, for instances, arrays, and objects with identity-hash extension. Copying preserves all payload words.',
 ['inputs'], 'every object mask, instance size, array element size and length',
 'A missed word corrupts memory only when a collection happens at that moment; layouts beyond the first mask word are rare.',
 ['src/machine.cpp', 'src/heap/heap.cpp'], [('walk', 'machine.cpp walk/HeapClient'), ('mark bitmaps', 'heap.cpp Segment::Map')], na=PEND)

prop('V16', 'Generated object files describe exactly the embedded data',
 'The object-file writers produce, for every supported format, byte order and word size, a file whose headers, symbol and section tables locate exactly the given data and symbols.',
 ['inputs', 'configurations'], 'every data size, symbol list, alignment, format, architecture and word size',
 'Only the host format is ever linked in the tests.',
 ['src/tools/object-writer/elf.cpp', 'src/tools/object-writer/mach-o.cpp', 'src/tools/object-writer/pe.cpp'], [('ELF', 'elf.cpp'), ('Mach-O', 'mach-o.cpp'), ('PE', 'pe.cpp')], na=PEND)

prop('V17', 'Native argument marshalling preserves every argument',
 'A call from Java to a native function, and from native code to Java, delivers every integer, long, float, double and reference argument unchanged and in order, and returns the result with the correct width and sign, for any signature.',
 ['inputs', 'programs'], 'every signature (any number and mix of parameter kinds) and argument value',
 'One JNI test covers a handful of signatures.',
 ['src/interpret.cpp', 'src/avian/x86.h', 'src/jnienv.cpp'], [('interpreter marshalling', 'interpret.cpp marshalArguments'), ('dynamic call', 'x86.h dynamicCall')], na=PEND)

prop('V18', 'The constant pool is decoded exactly and never reads past the class file',
 'The byte stream over a class file yields multi-byte quantities big-endian, advances by their size, and reports an error instead of touching memory beyond the end; from it the constant pool is built so that every constant is found where it lies (a long or double taking two slots), has the value its bytes give, is the object its kind requires and is linked to exactly the constants it names (each read once, references outside the pool refused), and every slot is marked reference, floating point or neither as its constant requires.',
 ['inputs'], 'every class-file byte sequence of up to 1 GB, every constant-pool layout, every position and order in which constants refer to each other',
 'Tests load compiler-generated, well-formed classes only.',
 ['src/machine.cpp', 'include/avian/util/stream.h'], [('stream', 'stream.h Stream, AbstractStream'), ('constant pool', 'machine.cpp parsePool, parsePoolEntry, poolSize; machine.h singletonCount')], claim=True,
 note='byte stream, constant-pool layout pass, every constant kind: proved by contracts; the field, method and attribute tables are not part of it. Object constructors and interning are assumed contracts.')

prop('V19', 'Monitors provide mutual exclusion and wait/notify semantics',
 'At any time at most one thread owns a given object monitor, ownership nests, and waiting releases and restores it completely; a notification wakes a waiting thread of that object only.',
 ['schedules', 'histories'], 'every schedule of every set of threads',
 'The tests run a few schedules.',
 ['src/avian/machine.h', 'src/machine.cpp'], [('monitors', 'machine.h monitorAcquire/monitorRelease/monitorWait/monitorNotify')], na='Concurrent code over compare-and-swap and system mutexes: needs a concurrent separation logic; no verifier for C++ with one is installed, and the sequential contracts of this framework cannot express interference.')

prop('V20', 'Garbage collection preserves the reachable object graph',
 'A collection at any safe point leaves every reachable object with the same contents and identity, and the program cannot observe that it happened except through references and finalizers.',
 ['schedules', 'inputs', 'histories'], 'every heap graph and every collection point',
 'A test samples a few graphs and collection points.',
 ['src/heap/heap.cpp', 'src/machine.cpp'], [('collector', 'heap.cpp collect')], na='End-to-end preservation is a reachability argument over an unbounded heap graph with generational remembered sets and in-place forwarding (2206 lines of raw-memory code); the per-object layer it rests on is V15, the global graph invariant is beyond the quantifier-free contracts of this framework.')

prop('V21', 'Register allocation and frame management preserve values in compiled code',
 'At every point of compiled code each live Java value is held by the location the compiler recorded for it, across calls, merges and exception edges.',
 ['programs'], 'every method body and control-flow graph',
 'Tests compile few methods under register pressure.',
 ['src/codegen/compiler.cpp', 'src/codegen/compiler/event.cpp', 'src/codegen/compiler/regalloc.cpp'], [('allocation', 'codegen/compiler/regalloc.cpp')], na='The allocator is a whole-method heuristic search over mutable graphs of events, values, sites and resources; a contract for it would need a global data-structure invariant spanning some 40 mutually recursive functions, which neither the solver-backed VC generator nor any installed C++ verifier reaches.')

prop('V22', 'Library collections and formatting behave as the Java API specifies',
 'The bundled class library\'s collections, string, number parsing and formatting classes behave as the Java API specifies for every sequence of calls.',
 ['inputs', 'histories'], 'every call sequence and argument',
 'Tests cover a few call sequences.',
 ['classpath/java/util/HashMap.java', 'classpath/java/util/TreeSet.java', 'classpath/java/lang/Integer.java'], [('collections', 'classpath/java/util'), ('numbers', 'classpath/java/lang')], na='No deductive verifier for Java (KeY, OpenJML, VerCors, Krakatoa) is installed and the VC generator of this framework reads LLVM IR only.')
