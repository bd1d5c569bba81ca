import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        **({'observe_at':observe} if observe else {}),hook_needed=hook)))

p("C01","Garbage collection preserves the reachable object graph",
"For every program, an object that is still reachable from a thread's stack or locals, a static field, an array or another reachable object keeps its class, its identity and the value of every field and element across any number of minor and full collections, whatever its age and size and however stores into old objects are interleaved with collections. Objects that are no longer reachable are eventually reclaimed, so a program whose live data is bounded never runs out of memory.",
["programs","histories","configurations"],
"All sequences of allocation (small, large, primitive/reference/pointer-free arrays), reference stores between objects of any age, drops of roots and minor/full collections, in the compiled and interpreted engines.",
"The GC tests allocate a few fixed shapes; a lost write barrier, a wrong object mask or a wrong stack map only shows for a specific age/size/store/collection history.",
["src/heap/heap.cpp","src/machine.cpp","src/compile.cpp","src/interpret.cpp","src/avian/machine.h"],
[("copying two-generation collector with tenuring and large-object lists","src/heap/heap.cpp"),("write barrier mark()/setField/aastore paths","src/avian/machine.h, src/compile.cpp"),("stack maps / frame visiting","src/compile.cpp visitStack, src/interpret.cpp visitObjects")],
["Java-visible object graph after each operation","heap client callbacks"])
p("C02","References and finalizers follow reachability",
"A weak, soft or phantom reference is never cleared or enqueued while its referent is strongly reachable; after a full collection in which the referent was unreachable, get() returns null and the reference is put on its queue exactly once. A finalizer runs at most once per object, only after the object became unreachable, with everything the object refers to still intact, and a WeakHashMap drops exactly the entries whose keys have died.",
["histories","programs"],
"All histories of creating/dropping/sharing referents and reference objects of different ages, registering queues, resurrecting in finalizers, and minor/full collections.",
"The tests drop one referent and collect once; promotion of the reference before the referent (or after) and reference chains are not sampled.",
["src/machine.cpp","src/finder.cpp","classpath/java/lang/ref/Reference.java","classpath/java/lang/ref/ReferenceQueue.java","classpath/java/util/WeakHashMap.java","src/heap/heap.cpp"],
[("postVisit/finalizer and weak reference lists, tenured variants","src/machine.cpp postVisit, visitRoots, finalizeObject"),("ReferenceQueue linked list","classpath/java/lang/ref/ReferenceQueue.java")],
["Reference.get/poll/isEnqueued","finalize() call log"])
p("C03","Object identity: stable hash, independent clones, canonical strings",
"An object's identity hash code never changes while the object lives, whatever collections move it and whenever the hash is first asked for, and taking it never disturbs the object's fields or array elements. A clone is a distinct object of the same class with equal contents, a stable identity hash and monitor of its own, unaffected by later changes to the original. Two intern() calls (or literals) of equal strings give the same object as long as that object is reachable.",
["histories","programs","configurations"],
"All histories of allocating objects and arrays of every size class, taking identity hashes, cloning, interning and collecting, in any order.",
"The tests take a few hash codes; hash-then-move, hash-then-move-then-clone and intern-then-collect-then-intern orders are not sampled.",
["src/machine.cpp","src/avian/machine.h","src/compile.cpp","src/builtin.cpp","src/classpath-avian.cpp"],
[("header mark bits HashTaken/Extended and extended word on copy","src/avian/machine.h objectHash/baseSize/extendedSize, src/machine.cpp HeapClient::copy"),("clone()","src/machine.cpp"),("weak string map","src/machine.cpp intern")],
["System.identityHashCode, ==, clone(), String.intern()"])
p("C04","Monitors: exclusion, reentrancy, wait and notify",
"At most one thread at a time owns an object's monitor, ownership is reentrant and is given up only by the matching last exit; a thread blocked on a monitor acquires it once it is free. wait() releases every recursion level and restores it before returning, a notify wakes exactly one waiting thread and notifyAll wakes all, no waiter returns without a notify, interrupt or timeout, no notify is lost while a thread waits, an interrupt delivered to a waiting thread surfaces exactly once, and an operation by a non-owner throws IllegalMonitorStateException without effect.",
["schedules","histories"],
"All schedules of several threads performing enter, exit, wait, timed wait, notify, notifyAll and interrupt on several monitors, with collections in between.",
"The tests run one or two threads with whatever schedule the OS gives and assert little about ownership.",
["src/avian/machine.h","src/machine.cpp","src/system/posix.cpp","src/builtin.cpp","classpath/java/lang/Object.java","classpath/java/lang/Thread.java"],
[("lock-free acquire queue, wait queue, depth counter","src/avian/machine.h monitorAcquire/monitorRelease/monitorWait/monitorNotify"),("condition variable and interrupt flag per thread","src/system/posix.cpp MySystem::Thread, Monitor")],
["per-thread operation log","hook events inside monitor operations"],
[("owner/depth","current owner and recursion count","Monitor object"),("acquire queue / wait list","threads waiting to own / be notified","Monitor object")],
"events emitted at the linearization points of monitor operations")
p("C05","Stop-the-world: collection excludes mutators without deadlock",
"Under every schedule of threads that run, allocate, block, sleep, call native code, start and exit, a thread that collects or runs exclusively does so only while no other thread executes managed code, at most one thread is exclusive at a time, and no object is lost. Every thread that was stopped resumes afterwards, and the set of threads waiting on each other never deadlocks the VM.",
["schedules"],
"All interleavings of thread state transitions (active, idle, exclusive, zombie, joined, exit) of any number of threads.",
"The tests exercise one schedule per run and cannot see a mutator running during a collection.",
["src/machine.cpp","src/avian/machine.h"],
[("enter(): thread state machine with activeCount/liveCount/exclusive","src/machine.cpp enter"),("ENTER/ACQUIRE/safepoint in managed-native transitions","src/avian/machine.h, src/compile.cpp")],
["hook events on thread state changes"],
[("state of each thread","Active/Idle/Exclusive/Zombie/Joined/Exit","vm::Thread::state"),("activeCount, liveCount, exclusive","VM-wide bookkeeping","vm::Machine")],
"events emitted under the state lock after each transition")
p("C06","Class initialization runs once, in order, and is awaited",
"Each class is initialized at most once, on its first active use and after its superclass, by exactly one thread; every other thread that needs it waits until initialization completes, while the initializing thread itself may use it recursively. If the initializer throws, the first user gets ExceptionInInitializerError (or the thrown Error), every later or waiting user gets NoClassDefFoundError, and no thread stays blocked.",
["programs","schedules","histories"],
"All class hierarchies and initializer dependency graphs (including cycles), failing initializers, kinds of first active use and arrival orders of several threads.",
"Tests have one or two static initializers, no failing ones with contention, and no cyclic graphs across threads.",
["src/machine.cpp","src/compile.cpp","src/interpret.cpp","src/builtin.cpp"],
[("preInitClass/initClass/postInitClass with the class lock","src/machine.cpp"),("initialization checks at getstatic/putstatic/invokestatic/new","src/compile.cpp, src/interpret.cpp")],
["initializer event log and thrown exceptions"])
p("C07","Dispatch, type tests and member lookup follow the hierarchy",
"For every class and interface hierarchy, a virtual or interface call runs the most specific override for the receiver's class, a super/special or static call runs the named one, and fields are found in the class the lookup rules name, with no two fields of an object overlapping. instanceof, checkcast, array stores, isAssignableFrom and isInstance agree with the subtype relation, including for arrays of classes, interfaces and primitives.",
["programs","configurations"],
"All hierarchies of classes, interfaces, overrides, hidden fields and array types, and all receiver/target combinations; compiled and interpreted.",
"Tests use a few small fixed hierarchies.",
["src/machine.cpp","src/compile.cpp","src/interpret.cpp","src/avian/machine.h","src/builtin.cpp","classpath/java/lang/Class.java"],
[("vtable and interface table construction","src/machine.cpp parseMethodTable, parseInterfaceTable"),("isAssignableFrom/instanceOf","src/machine.cpp"),("field layout","src/machine.cpp parseFieldTable")],
["results of generated programs"])
p("C08","Compiled and interpreted code compute what the bytecode says",
"For every method of valid bytecode, each arithmetic, conversion, comparison, shift, stack, local-variable, array, field, branch and switch instruction has the effect the JVM specification gives it, for all operand values including overflow, NaN, zero divisors and out-of-range indexes. The compiled engine and the interpreter give the same results.",
["programs","inputs","configurations"],
"All method bodies (control flow, stack shapes, register pressure) and all operand values.",
"Tests cover a fixed list of expressions; register allocation and merge points depend on the whole method body.",
["src/compile.cpp","src/interpret.cpp","src/codegen"],
[("JIT front end and code generator","src/compile.cpp, src/codegen/compiler.cpp, src/codegen/target/x86"),("interpreter loop","src/interpret.cpp")],
["values returned by generated methods"])
p("C09","Exceptions unwind to the right handler and release monitors",
"A thrown exception, explicit or raised by the VM, transfers control to the innermost handler covering the throw point whose type matches, with the locals as they were at the throw point; each finally block on the way runs exactly once, each synchronized method or block left abruptly releases its monitor exactly once, and stack traces name the active frames in order. This holds across interpreted, compiled, reflective and native frames.",
["programs","configurations"],
"All nestings of calls, try/catch/finally, synchronized regions, reflective and native frames, and all throw points and exception types.",
"Tests cover a handful of nestings.",
["src/compile.cpp","src/interpret.cpp","src/machine.cpp","src/jnienv.cpp","src/compile-x86_64.S"],
[("unwind/findUnwindTarget and exception handler tables","src/compile.cpp"),("interpreter handler search","src/interpret.cpp findExceptionHandler"),("monitor release on unwind","src/compile.cpp, src/interpret.cpp popFrame")],
["event logs of generated programs"])
p("C10","JNI references and pending exceptions",
"A local, global or weak-global JNI reference designates the same object until it is deleted or its frame ends, whatever collections run in between, and keeps it alive (weak ones excepted, which become null once the referent is collected). A pending exception stays pending until cleared and is rethrown to the Java caller, and array, string, field and method access through JNI reads and writes exactly the Java-visible state.",
["programs","histories"],
"All sequences of JNI calls from native methods, nested Java-native frames, and collections in between.",
"One fixed JNI test library calls each function at most a few times without collections in between.",
["src/jnienv.cpp","src/machine.cpp","src/avian/machine.h"],
[("reference list, local frames","src/machine.cpp makeLocalReference/pushLocalFrame, src/jnienv.cpp"),("exception field and THREAD_RUNTIME","src/jnienv.cpp")],
["results of native driver operations"])
p("C11","Class loading: delegation, uniqueness and identity",
"A class name requested through a loader resolves by that loader's delegation order to one class, the same on every later request and for every thread racing to load it; the same name defined by two loaders gives two distinct types, and a class's references resolve through its own defining loader. A missing or malformed class gives the documented error to the requester and leaves earlier classes usable.",
["programs","schedules","histories"],
"All loader trees, delegation policies, class name sets, request orders and racing threads.",
"Tests use one or two loaders, sequentially.",
["src/machine.cpp","classpath/java/lang/ClassLoader.java","classpath/avian/SystemClassLoader.java","src/builtin.cpp","src/finder.cpp"],
[("resolveClass/findLoadedClass/saveLoadedClass","src/machine.cpp"),("ClassLoader.loadClass","classpath/java/lang/ClassLoader.java")],
["Class identity, loader and thrown errors"])
p("C12","Maps and sets behave as mathematical maps and sets",
"Under every sequence of operations, HashMap, LinkedHashMap, Hashtable, IdentityHashMap, TreeMap, HashSet, LinkedHashSet and TreeSet return and contain exactly what the abstract map or set does: each key at most once with its last value, size and emptiness exact, views and iterators (including removal through them) consistent with the map. Tree collections iterate in comparator order and answer first/last/range queries accordingly; linked ones iterate in insertion order.",
["histories","inputs"],
"All operation sequences, key sets with any hash collision pattern and comparator, and sizes across table growth.",
"Tests perform short fixed sequences with few collisions.",
["classpath/java/util/HashMap.java","classpath/java/util/LinkedHashMap.java","classpath/java/util/TreeMap.java","classpath/java/util/TreeSet.java","classpath/avian/PersistentSet.java","classpath/java/util/HashSet.java","classpath/java/util/LinkedHashSet.java","classpath/java/util/Hashtable.java","classpath/java/util/IdentityHashMap.java"],
[("chained hash table with resize","classpath/java/util/HashMap.java"),("persistent red-black tree","classpath/avian/PersistentSet.java")],
["return values and full contents after each operation"])
p("C13","Lists and deques behave as sequences",
"Under every sequence of operations, ArrayList, LinkedList, Vector, Stack, ArrayDeque and the Arrays/Collections list helpers return and contain exactly what the abstract sequence does: element order, indexes, sizes, ends of the deque, iterator and list-iterator positions, insertion and removal anywhere. Out-of-range or empty accesses throw the documented exception and leave the contents unchanged.",
["histories","inputs"],
"All operation sequences and sizes across growth, shrink and wrap-around.",
"Tests perform short fixed sequences.",
["classpath/java/util/ArrayList.java","classpath/java/util/LinkedList.java","classpath/java/util/Vector.java","classpath/java/util/Stack.java","classpath/java/util/ArrayDeque.java","classpath/java/util/Collections.java","classpath/java/util/Arrays.java"],
[("grow/shrink array","classpath/java/util/ArrayList.java"),("doubly linked list","classpath/java/util/LinkedList.java"),("circular buffer","classpath/java/util/ArrayDeque.java")],
["return values and full contents after each operation"])
p("C14","Concurrent library objects are linearizable and lose no wakeup",
"Every concurrent history of operations on the atomic classes, ConcurrentLinkedQueue, ConcurrentHashMap, LinkedBlockingQueue and FutureTask is explained by some sequential order of the operations that respects real time. Blocking operations return once their condition holds, timed ones give up only after their timeout, and bounded queues never exceed capacity or lose or duplicate an element.",
["schedules","histories"],
"All schedules and operation mixes of several threads.",
"Tests run a few threads with uncontrolled schedules and check final counts.",
["classpath/java/util/concurrent","classpath/sun/misc/Unsafe.java","src/builtin.cpp"],
[("compare-and-swap based structures","classpath/java/util/concurrent/ConcurrentLinkedQueue.java, ConcurrentHashMap.java, atomic/*"),("locks with wait/notify","classpath/java/util/concurrent/LinkedBlockingQueue.java")],
["call/return histories"])
p("C15","NIO buffers keep their index algebra and shared contents",
"For every sequence of operations on heap and direct buffers, 0 <= position <= limit <= capacity holds, relative and absolute reads return the bytes last written at those positions in big-endian order, and slices, duplicates and read-only views share contents at the right offset with independent indexes. Overflow, underflow and writes through read-only views throw and change nothing.",
["histories","inputs"],
"All operation sequences over several aliased views.",
"Tests use a few fixed sequences on one buffer.",
["classpath/java/nio"],
[("Buffer index bookkeeping","classpath/java/nio/Buffer.java, ByteBuffer.java"),("array and direct storage","classpath/java/nio/ArrayByteBuffer.java, DirectByteBuffer.java, FixedArrayByteBuffer.java")],
["buffer state and contents after each operation"])
p("C16","Streams deliver exactly the bytes and characters written",
"Any chain of buffered, pushback, data, byte-array, reader and writer streams delivers exactly the bytes or characters put in, in order, once each, whatever the sizes of the reads and writes, the chunking of the underlying stream and the buffer boundaries; skip, available, unread and end-of-stream answers are consistent with that sequence. Encoding text and decoding it again gives the same text even when characters straddle chunks.",
["inputs","histories"],
"All stream stacks, operation sequences, chunkings and contents.",
"Tests use one or two sizes per stream.",
["classpath/java/io","classpath/avian/Utf8.java"],
[("buffer refill and flush logic","classpath/java/io/BufferedInputStream.java, BufferedOutputStream.java, BufferedReader.java, PushbackReader.java"),("incremental UTF-8","classpath/avian/Utf8.java, classpath/java/io/InputStreamReader.java")],
["data delivered by each read"])
p("C17","Continuations and dynamic-wind",
"Calling a captured continuation, any number of times and from any dynamic extent, resumes the capturing computation with the passed value or exception and with its locals as captured, and runs exactly the after thunks of the extents left and the before thunks of the extents entered, innermost-first out and outermost-first in. Shifting/resetting delimited contexts composes in the same way, and collections in between change nothing.",
["programs"],
"All nestings of captures, re-entries, dynamic winds and exceptions.",
"Four fixed programs are tested.",
["classpath/avian/Continuations.java","src/compile.cpp","src/continuations-x86.S"],
[("continuation capture and call","src/compile.cpp makeCurrentContinuation/callContinuation"),("dynamic wind and rewind","src/compile.cpp dynamicWind, classpath/avian/Continuations.java")],
["event logs of generated programs"])
p("C18","Tail calls run in constant stack and keep semantics",
"In a tail-call build, any chain of calls in tail position, of any length and with any mix of static, virtual, interface and special calls and argument counts, runs in bounded stack space. Its results, exceptions, synchronized regions and handlers are the same as in a build without tail calls.",
["programs","configurations"],
"All mutually recursive tail-calling programs with any argument shapes.",
"One fixed program is tested.",
["src/compile.cpp","src/codegen/compiler.cpp","src/codegen/target/x86"],
[("tail-call analysis and footprint adjustment","src/compile.cpp isTailCall, src/codegen/compiler.cpp")],
["results of generated programs and absence of StackOverflowError"])
p("C19","Resource exhaustion is reported and survivable",
"When the heap limit or a thread's stack is exhausted, the running thread gets OutOfMemoryError or StackOverflowError at the offending point, all earlier effects stand, and after the error is caught and the excess is dropped the program continues correctly, however often this repeats. No other thread is harmed.",
["programs","fault_sequences"],
"All points at which allocation or a call may exceed its limit.",
"Two fixed programs are tested.",
["src/machine.cpp","src/heap/heap.cpp","src/compile.cpp","src/interpret.cpp"],
[("allocate3/collect and heap limit","src/machine.cpp"),("stack limit check","src/compile.cpp, src/interpret.cpp checkStack")],
["outcome of generated programs under small limits"])
p("C20","Strings, builders and bit sets behave as sequences and sets",
"Under every sequence of operations, String, StringBuilder and BitSet return exactly what the abstract character sequence or bit set does: contents, length, substring, search, replace, insert and delete at any index, comparison and hash. Sharing of storage between strings is invisible, and out-of-range arguments throw the documented exception and change nothing.",
["histories","inputs"],
"All operation sequences, contents and index combinations.",
"Tests use a few fixed strings.",
["classpath/java/lang/String.java","classpath/java/lang/StringBuilder.java","classpath/java/lang/StringBuffer.java","classpath/java/util/BitSet.java"],
[("offset/length views on shared arrays","classpath/java/lang/String.java"),("rope of cells","classpath/java/lang/StringBuilder.java"),("word array","classpath/java/util/BitSet.java")],
["return values and contents"])
p("C21","Thread lifecycle, join, interrupt and thread-locals",
"Each started thread runs its body exactly once; join returns only after the thread has finished and with all its effects visible, isAlive and getState agree with that, and the VM exits only when every non-daemon thread has finished. An interrupt sets the target's status once and is observed by exactly one consumer (interrupted(), or InterruptedException from sleep, wait or join), and thread-local values are private to their thread.",
["schedules","histories"],
"All histories of start, join, interrupt, sleep, park, exit and thread-local access by several threads.",
"Tests start a few threads with one schedule.",
["src/machine.cpp","src/builtin.cpp","src/classpath-avian.cpp","classpath/java/lang/Thread.java","classpath/java/lang/ThreadLocal.java"],
[("startThread/runThread/exit bookkeeping","src/machine.cpp, src/classpath-avian.cpp"),("interrupt flag and monitor of the thread","src/machine.cpp interruptThread, src/system/posix.cpp")],
["operation results per thread"])
p("C22","Reflection and serialization see exactly the program state",
"Invoking a method or constructor, or reading or writing a field or array element through reflection (including proxies) has exactly the effect and result of the direct operation, with the documented conversions, and wraps or raises the documented exceptions. Serializing an object graph and reading it back yields an isomorphic graph: same shape, sharing and cycles, same classes and field values, transient fields defaulted.",
["programs","inputs"],
"All signatures, argument values and receivers; all object graphs.",
"Tests use a few signatures and one small graph.",
["classpath/java/lang/reflect","classpath/avian/VMMethod.java","src/builtin.cpp","src/classpath-avian.cpp","classpath/java/io/ObjectOutputStream.java","classpath/java/io/ObjectInputStream.java"],
[("invoke with boxing and unboxing","classpath/java/lang/reflect/Method.java, src/classpath-avian.cpp"),("back-reference tables","classpath/java/io/ObjectOutputStream.java, ObjectInputStream.java")],
["results of reflective operations and reread graphs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
