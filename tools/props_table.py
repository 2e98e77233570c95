CPP = ["macroslib/src/cpp/cpp-include.rs", "macroslib/src/cpp/map_type.rs", "macroslib/src/cpp/fclass.rs", "macroslib/src/cpp/cpp_code.rs",
       "macroslib/src/typemap.rs", "macroslib/src/typemap/typemap_macro.rs"]
prop("C01", "C++: values cross the border unchanged in both directions",
     """For every interface the C++ generator accepts, each value a C++ caller passes to a generated method (numbers, bool, strings and paths,
     enums, objects, references, Option, tuples, slices, vectors, repr(C) structs, in any supported nesting) is the value the Rust method
     receives, in the declared argument position, and each value Rust returns (including both arms of Result and all Option/tuple nestings)
     is the value the C++ caller gets. Mutations Rust makes through &mut objects and &mut slices are visible to the C++ caller afterwards.
     No call reads or writes memory outside the objects involved.""",
     ["programs", "inputs"], "all accepted interface definitions (argument/return type combinations, nesting, storage kinds of the classes) and all argument and return values",
     "cpp_tests' program is not run by the build's tests, and the expectation tests compare a few generated snippets as text: no value crosses the border in them.",
     CPP, [("type maps of the C++ back end", "macroslib/src/cpp/cpp-include.rs"), ("method code generation", "macroslib/src/cpp/fclass.rs"),
           ("choice of conversion path", "macroslib/src/typemap.rs")],
     """Random interfaces that together use every supported argument/return shape, random boundary-biased values; trusts g++ 13, rustc and the
     harness' own encoders. x86_64 Linux only.""",
     "property-based testing: random interfaces and values, Rust-side log compared with a reference model, ASan/UBSan",
     ["the driver's view of each result", "the Rust side's log of each call"])
prop("C02", "C++: Rust objects live exactly as long as their C++ handles",
     """A Rust object reachable from C++ is destroyed exactly once, when its last owner goes away: the C++ handle that owns it (or the last of the handles
     and Rust-side owners sharing it, for Rc/Arc storage), and never while a handle still owns it. Moving a handle, passing it by value to Rust,
     returning it from Rust, storing it in Option, Result, tuples or vectors, assigning, swapping, releasing and re-adopting transfer ownership without copying;
     copying a handle clones the object (or shares it, for smart-pointer storage), and copying an empty handle gives an empty handle.
     Reference views (Ref handles, &self, &T, &mut T arguments) never take part in ownership.""",
     ["programs", "histories"], "all sequences of handle operations and method calls on all kinds of class storage",
     "ownership bugs need a particular order of moves, copies, calls and destructions; the C++ test program is not part of the build's tests",
     CPP, [("class wrapper with owning and non-owning variants", "macroslib/src/cpp/fclass.rs"), ("box/unbox of class objects", "macroslib/src/cpp/cpp-include.rs"),
           ("smart-pointer self types", "macroslib/src/cpp/map_class_self_type.rs")],
     """Random histories of up to ~500 operations over at most ~60 handles and 7 or 8 classes of every storage kind; after each operation the set of live
     Rust objects is compared with the model's. Self-move-assignment is outside.""",
     "model-based testing: random handle histories against an ownership model, live-object registry in Rust, ASan/LSan",
     ["live-object registry of the Rust side", "LeakSanitizer at exit"])
prop("C03", "C++: container classes behave like the sequences they stand for",
     """RustVec*, RustForeignVec*, RustSlice, RustForeignSlice and RustString hold exactly the elements Rust put in or C++ pushed, in order: size, empty,
     indexing, iteration in both directions, iterator arithmetic and comparison, const and non-const views and slices of the whole all agree.
     push, remove, clear, move, swap, copy and release/re-adopt have the effect the corresponding sequence operation has and free every element exactly once,
     and default-constructed or moved-from containers are usable empty containers, also as arguments of Rust functions.""",
     ["programs", "histories"], "all element types and all histories of container operations",
     "the container headers are plain C++ text for the build's tests: nothing compiles or runs them",
     ["macroslib/src/cpp/cpp-include.rs", "macroslib/src/cpp/rust_foreign_vec_impl.hpp", "macroslib/src/cpp/rust_vec_impl.hpp", "macroslib/src/cpp/rust_slice_tmpl.hpp",
      "macroslib/src/cpp/rust_foreign_slice_impl.hpp", "macroslib/src/cpp/rust_foreign_slice_iter.hpp"],
     [("vector of numbers and repr(C) structs", "macroslib/src/cpp/rust_vec_impl.hpp"), ("vector of objects", "macroslib/src/cpp/rust_foreign_vec_impl.hpp"),
      ("random access iterator", "macroslib/src/cpp/rust_foreign_slice_iter.hpp"), ("RustString", "macroslib/src/cpp/cpp-include.rs")],
     """Random histories over containers of 8 value types, 3 classes and strings, random iterator walks. Out-of-range indexes and vectors of zero-sized or
     Rc-stored classes are outside (see known findings for the latter).""",
     "model-based testing: random container histories and iterator walks against list models, ASan/LSan/UBSan")
prop("C04", "C++: callbacks reach the right C++ object with the right values",
     """Each call Rust makes on a trait object made from a C++ object of a generated interface runs the matching method of that very C++ object exactly once,
     with the same arguments in the declared positions and, for the call's result, the value the C++ method returned, also when the call comes from
     another thread or from within another callback. The C++ object is deleted exactly once, when Rust drops the trait object, and not before.
     Default-implemented arguments such as references and Option arrive with the same presence and content.""",
     ["programs", "histories"], "all callback traits accepted, all histories of registering, calling (nested, from threads) and dropping callbacks",
     "the expectation tests compare the text of the C structure for two callbacks; nothing is ever called",
     CPP + ["macroslib/src/cpp/finterface.rs"], [("C structure of function pointers and the Rust trait implementation for it", "macroslib/src/cpp/finterface.rs"),
           ("argument and return conversions", "macroslib/src/cpp/cpp-include.rs")],
     """Random callback traits over all argument kinds the back end accepts, nested calls to depth 3, calls from other threads (each joined before the next step:
     no data races are searched for). Exceptions thrown by C++ callbacks are outside (the generated functions are noexcept).""",
     "model-based testing: random callback traits and histories, both sides' logs compared with a model, ASan/LSan",
     ["the C++ implementation's log of each call", "the Rust side's log of each result", "the C++ destructor"])
prop("C05", "C++: every generator configuration yields the same behaviour",
     """The same interface has the same observable behaviour (values, ownership, callbacks) whatever the C++ configuration: std or boost flavour of optional,
     variant and string_view, each chosen independently or together, separate *_impl.hpp headers or not, any namespace, rustfmt on or off.
     The generated headers compile with every C++ standard that configuration is for (boost flavours: C++11 and later; std flavours: C++17 and later).""",
     ["configurations", "programs"], "all configurations times all accepted interfaces and histories",
     "the build's tests generate with few configurations and compile none of the results",
     CPP + ["macroslib/src/lib.rs", "macroslib/src/cpp/mod.rs"], [("choice of conversion rules by option", "macroslib/src/cpp/mod.rs"), ("CppConfig", "macroslib/src/lib.rs")],
     """11 configurations, each with the value, object and callback generators of C01, C02 and C04. Result<(), T> is taken to follow the variant option.
     Classes with cyclic header dependencies are outside (separate_impl_headers alone does not make them compile).""",
     "property-based testing: the histories of C01/C02/C04 repeated under every configuration against one model")
JAVA = ["macroslib/src/java_jni/jni-include.rs", "macroslib/src/java_jni/fclass.rs", "macroslib/src/java_jni/java_code.rs", "macroslib/src/java_jni/rust_code.rs",
        "macroslib/src/java_jni/map_type.rs", "macroslib/src/java_jni/map_class_self_type.rs", "macroslib/src/typemap.rs"]
prop("J01", "Java: values cross the border unchanged in both directions",
     """For every interface the Java generator accepts, each value a Java caller passes (numbers within the Rust type's range, boolean, String, paths, enums, objects,
     boxed/nullable options, arrays) is the value the Rust method receives, in the declared position, and each value Rust returns (numbers, strings, enums, objects,
     Optional*, arrays, dates) is what the Java caller gets. Mutations through &mut objects are visible afterwards, array arguments are left as they were,
     and a Result's Ok value is returned while Err throws java.lang.Exception with exactly the error text, for any text.""",
     ["programs", "inputs"], "all accepted interface definitions and all argument and return values within the range both languages share",
     "jni_tests calls a fixed interface with a few values each",
     JAVA, [("type maps of the Java back end", "macroslib/src/java_jni/jni-include.rs"), ("native function generation", "macroslib/src/java_jni/fclass.rs")],
     """Random interfaces that together use every supported argument/return shape, boundary-biased values. OpenJDK 17 with -Xcheck:jni on x86_64 Linux; values
     a Java type cannot hold, unpaired surrogates, dates before 1970 and lone consumed objects are outside.""",
     "property-based testing: random interfaces and values, Rust-side log compared with a reference model, -Xcheck:jni",
     ["the driver's view of each result", "the Rust side's log of each call"])
prop("J02", "Java: Rust objects live until delete() or finalization, dropped once",
     """A Rust object behind a Java object is dropped exactly once: at delete(), or when the Java object, however it was obtained (constructor, return value, array
     element, Optional), has become garbage and is finalized, or by Rust if it was handed over by value; for Rc/Arc storage when the last sharer goes.
     It is never dropped while a live Java object owns it, repeated delete() has no further effect, and a constructor that fails leaves nothing behind.""",
     ["programs", "histories"], "all sequences of constructions, calls, deletions and garbage collections on all kinds of class storage",
     "ownership bugs need a particular order of calls, deletions and collections; jni_tests collects no garbage on purpose",
     JAVA, [("creation of Java objects for Rust values", "macroslib/src/java_jni/jni-include.rs"), ("delete(), finalize() and constructors", "macroslib/src/java_jni/fclass.rs"),
            ("smart-pointer self types", "macroslib/src/java_jni/map_class_self_type.rs")],
     """Random histories of ~400 operations over 7 or 8 classes of every storage kind; after each operation the set of live Rust objects is compared with the model's;
     memory is poisoned when freed. Use of an object after delete() or after it was consumed is outside.""",
     "model-based testing: random object histories with forced garbage collection against an ownership model",
     ["live-object registry of the Rust side"])
prop("J03", "Java: callbacks reach the right Java object with the right values",
     """Each call Rust makes on a trait object made from a Java object runs the matching method (overload) of that very Java object exactly once, with the same
     arguments in the declared positions, and Rust gets the value the Java method returned, also from other threads (attached or not) and from within other callbacks.
     The Java object stays reachable while Rust owns the trait object and becomes collectable when Rust drops it, and an exception thrown by a void callback
     disturbs neither Rust nor later calls.""",
     ["programs", "histories"], "all callback traits accepted, all histories of registering, calling (nested, from threads), throwing and dropping callbacks",
     "jni_tests calls a few fixed callbacks from at most one other thread",
     JAVA + ["macroslib/src/java_jni/finterface.rs"], [("Rust trait implementation for a Java object", "macroslib/src/java_jni/finterface.rs"),
           ("JavaCallback, attachment of threads", "macroslib/src/java_jni/jni-include.rs")],
     """Random callback traits over all argument kinds the back end accepts, nested calls to depth 3, calls from other threads, also concurrent ones. Exceptions in callbacks
     that return a value are outside (the result is undefined).""",
     "model-based testing: random callback traits and histories, both sides' logs compared with a model, -Xcheck:jni",
     ["the Java implementation's log of each call", "the Rust side's log of each result", "WeakReferences to the callback objects"])
prop("J05", "Java: every generator configuration yields the same behaviour",
     """The same interface has the same observable behaviour (values, ownership, callbacks) whatever the Java configuration: package name (also nested, with underscores
     or digits), null annotations or none, the package of Optional, the kind and size of reachability fences, rustfmt on or off. The generated classes compile in each of them.""",
     ["configurations", "programs"], "all configurations times all accepted interfaces and histories",
     "the build's tests run one Java configuration",
     JAVA + ["macroslib/src/lib.rs", "macroslib/src/java_jni/mod.rs"], [("JavaConfig", "macroslib/src/lib.rs"), ("use of the options", "macroslib/src/java_jni/mod.rs")],
     """9 configurations, each with the value, object and callback generators of J01, J02 and J03; a custom Optional package has classes with the interface of java.util's.""",
     "property-based testing: the histories of J01/J02/J03 repeated under every configuration against one model")
PYTHON = ["macroslib/src/python/mod.rs", "macroslib/src/python/python-include.rs"]

prop("Y01", "Python: calls carry every argument and result unchanged",
     """Each call through a generated Python class, positional or by keyword, on the object or through the class, runs the declared Rust function exactly once with the
     very values given (all integers a type can hold, floats bit for bit, full Unicode, enums, objects, None for Option, any sequence for Vec and slices), and the caller
     gets the very value Rust returned as the corresponding Python type. An Err becomes the module's Error exception carrying the whole chain of causes.""",
     ["programs", "inputs"], "all accepted interface definitions and all argument and return values",
     "python_tests calls one fixed interface with one or two values per type",
     PYTHON, [("conversion of arguments and results", "macroslib/src/python/mod.rs"), ("error chain", "macroslib/src/python/mod.rs")],
     """Random interfaces that together use every supported argument/return shape nested to depth 2 and classes of all storages, boundary-biased values.
     CPython 3.12 and rust-cpython 0.7.2 on x86_64 Linux. Constructors that return Result, callbacks and paths are not supported by the back end.""",
     "property-based testing: random interfaces and values, Rust-side log compared with a reference model",
     ["the driver's view of each result", "the Rust side's log of each call"])
prop("Y02", "Python: Rust objects live until the last reference, dropped once",
     """A Rust object behind a Python object, however it was obtained (constructor, return value, element of a list or tuple), is dropped exactly once, when the last
     Python reference goes away (for Arc storage: when Rust has no owner left either), and not earlier. A by-value argument is a clone (the same object for Arc) that
     Rust owns, an object Rust lends is copied, and neither failing calls nor Err results leave objects behind.""",
     ["programs", "histories"], "all sequences of constructions, calls, aliasings and deletions on all kinds of class storage",
     "ownership bugs need a particular order of calls and deletions; python_tests looks at no object's end",
     PYTHON, [("rust_instance and create_instance", "macroslib/src/python/mod.rs"), ("smart pointers of storage", "macroslib/src/python/mod.rs")],
     """Random histories of ~500 operations over 11 classes of every storage kind; after each operation the set of live Rust objects is compared with the model's;
     memory is poisoned when freed.""",
     "model-based testing: random object histories against an ownership model",
     ["live-object registry of the Rust side"])
prop("Y03", "Python: calls that do not fit are refused and change nothing",
     """A call with a missing, extra, unknown or doubled argument, a wrong self, or a value of the wrong type or out of range anywhere inside an argument raises
     TypeError, OverflowError (integer out of range) or ValueError (no such enum value, string that is no Unicode) as in Python itself. Rust code is not run, nothing is
     truncated, changed or leaked, and the objects involved remain usable.""",
     ["programs", "inputs", "histories"], "all accepted interface definitions and all calls that do not fit them",
     "python_tests makes a handful of wrong calls",
     PYTHON, [("argument declarations and conversions", "macroslib/src/python/mod.rs")],
     """Random histories of refused calls between correct ones, one misfit per call at a random depth; bool as integer and integer as float count as fitting.""",
     "property-based testing: random misfits between correct calls, Rust-side log compared with a reference model",
     ["exception seen by the driver", "the Rust side's log of calls and live objects"])
ALL = ["macroslib/src/code_parse.rs", "macroslib/src/lib.rs", "macroslib/src/types.rs", "macroslib/src/cpp/fclass.rs", "macroslib/src/cpp/fenum.rs", "macroslib/src/cpp/finterface.rs",
       "macroslib/src/cpp/cpp_code.rs", "macroslib/src/java_jni/fclass.rs", "macroslib/src/java_jni/fenum.rs", "macroslib/src/java_jni/finterface.rs",
       "macroslib/src/java_jni/java_code.rs", "macroslib/src/python/mod.rs"]
prop("J06", "Java objects a call uses stay alive until the call has ended",
     """While a native method runs, the Rust objects of the receiver and of all Java objects given to it as arguments (by reference, optional
     or inside smart pointers) stay alive, even if the
     Java program never mentions these objects again and the garbage collector and finalizers run during the call.
     This holds for instance and static methods, constructors, compiled code, with the fence of the standard library or the generated one, and with null annotations.""",
     ["schedules", "programs"], "all moments at which the garbage collector can run during a call, for all signatures with class arguments",
     "the jni tests keep every object in a local variable which is used again, and never collect garbage during a call",
     JAVA, [("fences after native calls", "macroslib/src/java_jni/java_code.rs"), ("conversion of class arguments", "macroslib/src/java_jni/map_class_self_type.rs")],
     """Random classes (plain, Rc, Arc storage) and signatures; a callback made in the middle of each Rust method runs System.gc() and runFinalization() while everything is compiled
     (-Xcomp, both compilers). The receiver is not protected by the present generator: listed as a known finding.""",
     "property-based testing: garbage collection forced inside random native calls, object lifetimes observed in Rust",
     ["drops of Rust objects during calls that use them"])
prop("T01", "C++: calls from several threads on shared objects do not interfere",
     """C++ threads may call methods of the same objects stored behind Arc<Mutex<>> or Arc<> at the same time, through one handle, copied handles or handles of their own: a call holds the
     locks of its receiver and of every Arc<Mutex<>> object given to it by reference from before the Rust method starts until after it ends, and has released them when it returns,
     so that the effect of all calls is that of some serial order. Private objects, arguments, results and errors of each thread are what they would be in a program of one thread, whatever other threads do, and callbacks can be
     registered, called, replaced and dropped by different threads, Rust threads included. Each object and callback is destroyed exactly once, after its last user, in whichever thread that happens.""",
     ["schedules", "programs"], "all interleavings of calls, handle copies, callback events and destructions in several C++ and Rust threads, for all signatures over such objects",
     "the C++ test program uses one thread, and is not run by the build's tests",
     CPP, [("locking conversions", "macroslib/src/cpp/cpp-include.rs"), ("calls of methods", "macroslib/src/cpp/fclass.rs"), ("class arguments and results", "macroslib/src/cpp/map_class_self_type.rs"),
           ("callbacks", "macroslib/src/cpp/finterface.rs")],
     """Random interfaces (1-3 locked classes, one Arc class, one plain class, callbacks), 2-8 threads of up to 400 random operations. That locks are held is asked of the mutex itself inside each
     Rust method, at its start and end, so it does not depend on the schedule; lost updates, torn states, order of tickets, leaks and double drops do. Calls which lock several objects are serialized by the caller, as the order of locking is not promised.""",
     "property-based testing: random multi-threaded programs, locks checked inside each call, sums and tickets against a sequential model, ASan",
     ["state of each mutex inside the Rust methods", "sums, tickets and results in every thread", "live objects and callbacks at the end"])
prop("T02", "Java: calls from several threads on shared objects do not interfere",
     """Java threads may call methods of the same objects stored behind Arc<Mutex<>> or Arc<> at the same time: a call holds the locks of its receiver and of every Arc<Mutex<>> object given to it
     by reference from before the Rust method starts until after it ends, and has released them when it returns, so that the effect of all calls is that of some serial order.
     Private objects, arguments, results and exceptions of each thread are what they would be in a program of one thread, whatever other threads, the garbage collector and finalizers do, and callbacks can be registered, called, replaced and dropped
     by different threads, Rust threads included. Each Rust object is destroyed exactly once, after its last user, by delete, hand-over or finalizer, in whichever thread that happens.""",
     ["schedules", "programs"], "all interleavings of calls, callback events, garbage collections and destructions in several Java and Rust threads, for all signatures over such objects",
     "the jni tests call shared objects from one thread, except for one test of a callback",
     JAVA, [("locking conversions, callbacks from other threads", "macroslib/src/java_jni/jni-include.rs"), ("class arguments and results", "macroslib/src/java_jni/map_class_self_type.rs"),
            ("native methods and destructors", "macroslib/src/java_jni/fclass.rs")],
     """As T01, with a thread that collects garbage and runs finalizers all the time, -Xcheck:jni, and explicit delete() calls of handles no other thread has.""",
     "property-based testing: random multi-threaded programs, locks checked inside each call, sums and tickets against a sequential model, -Xcheck:jni",
     ["state of each mutex inside the Rust methods", "sums, tickets and results in every thread", "live objects at the end"])
prop("S01", "Generated code declares what the interface declares, and nothing else",
     """Every class, method, constructor, enum item and callback method of an interface appears in the generated code exactly once under its declared name
     (alias, camelCaseAliases, Rust name), with the declared access (public, protected, private), as static, instance, const or constructor as declared, with argument
     names, order and types and result type as declared, and enum items with values in declaration order; nothing else becomes part of the public surface.
     Old spellings (foreigner_class, method, static_method, interface) mean what the new ones mean, and each foreign_code block appears verbatim once, in the file of its class.""",
     ["programs"], "all accepted interface definitions",
     "expectation tests compare a few dozen fixed interfaces as text",
     ALL, [("parsing of declarations", "macroslib/src/code_parse.rs"), ("C++ classes", "macroslib/src/cpp/fclass.rs"), ("Java classes", "macroslib/src/java_jni/fclass.rs"),
           ("Python classes", "macroslib/src/python/mod.rs")],
     """Random interfaces over primitive, string, enum and class-reference types (other types: the value checks); the surface is read by clang's AST, javac's tree and the
     Python interpreter. Names that are keywords of the foreign language, and equal item names in two C++ enums, are outside.""",
     "property-based testing: random interfaces, declared surface compared with the surface the foreign compiler sees",
     ["clang AST dump", "javac syntax tree", "attributes of the imported Python module"])
prop("S02", "Doc comments arrive at their declaration and never become code",
     """Doc comments of classes, methods, constructors, enums, enum items and callbacks appear, line by line and with unchanged text, as the comment of exactly that declaration
     in the generated code (Python: classes and methods, with the constructor's comment in the class's).
     Whatever the text and form of the comment (///, /** */, #[doc]), it never changes, adds or removes generated code.""",
     ["programs", "inputs"], "all doc comment texts at all places of all accepted interfaces",
     "the expectation tests have a handful of one-word comments",
     ALL, [("attributes of items", "macroslib/src/code_parse.rs"), ("C++ comments", "macroslib/src/cpp/cpp_code.rs"), ("Java comments", "macroslib/src/java_jni/java_code.rs")],
     """Random interfaces with comments from a pool of hostile texts (comment openers and closers, backslashes, Unicode escapes, code). Leading and trailing blanks of a line and
     empty first and last lines are not compared; entities Java needs are decoded; C++ may close a trailing backslash with punctuation.""",
     "property-based testing: hostile comment texts, comments and declarations read back by the foreign compiler's parser",
     ["comment text at each declaration", "surface compared as in S01"])
prop("G01", "Output depends only on interface and configuration; re-runs change nothing",
     """Two runs of the generator on the same source and configuration produce byte-identical files, whatever the process, output directory, working directory and environment.
     A run never writes a file whose content would not change, and a run over old output leaves in every generated file exactly what a run into an empty directory gives.""",
     ["configurations", "programs"], "all interfaces, configurations, processes and previous contents of the output directory",
     "the tests run the generator once per interface and look at the result only",
     ["macroslib/src/lib.rs", "macroslib/src/file_cache.rs", "macroslib/src/cpp/mod.rs", "macroslib/src/java_jni/mod.rs", "macroslib/src/typemap.rs"],
     [("write only when changed", "macroslib/src/file_cache.rs"), ("expansion", "macroslib/src/lib.rs")],
     "Random interfaces, 13 configurations over three languages, three hostile environments; time stamps are set back before each re-run.",
     "metamorphic testing: independent runs, re-runs and updates of random interfaces compared byte by byte, time stamps checked",
     ["bytes of all output files", "modification times"])
prop("G02", "Runs leave user files alone and remove obsolete outputs only when asked",
     """After a run the output directory contains every generated file with fresh content, whatever was damaged, edited or deleted there before.
     Without remove_not_generated_files_from_output_directory no other file is changed or removed; with it exactly the files of the directory itself that have the language's
     extension (.h, .hpp; .java) and were not generated by this run are removed.""",
     ["histories"], "all histories of runs, interface changes and user edits over one output directory",
     "no test looks at files of an earlier run",
     ["macroslib/src/lib.rs", "macroslib/src/file_cache.rs", "macroslib/src/cpp/mod.rs", "macroslib/src/java_jni/mod.rs", "macroslib/src/typemap/utils.rs"],
     [("removal of obsolete files", "macroslib/src/typemap/utils.rs"), ("registration of written files", "macroslib/src/file_cache.rs")],
     "Random histories of 3 to 8 runs; directories whose names look like generated files, and links, are outside.",
     "model-based testing: random histories over an output directory against a model of its files",
     ["all files of the output directory after each run"])
prop("G03", "Other Rust code passes through; file layout and order do not matter",
     """Rust items of a source that are not flapigen's macros appear in the output with the same tokens and in the same order, and have no influence on the generated code.
     Cutting a source between items into several files of expand_many, adding comments or blanks, and reordering classes and callbacks give the same foreign files,
     and the first of these the same Rust code.""",
     ["programs"], "all sources, cuts into files and orders of declarations",
     "the tests' sources have a fixed layout, and none has more than a few other items",
     ["macroslib/src/lib.rs", "macroslib/src/code_parse.rs", "macroslib/src/typemap.rs", "macroslib/src/typemap/ast.rs"],
     [("expansion of sources", "macroslib/src/lib.rs"), ("printing of tokens", "macroslib/src/typemap/ast.rs")],
     """Random interfaces with items from a pool of about 25 forms. Enums stay before the classes that use them (the generator requires it). With rustfmt separators are not compared.""",
     "metamorphic testing: random sources re-cut, re-laid-out and re-ordered; token streams of pass-through items searched in the output",
     ["tokens of the Rust output", "bytes of the foreign files"])
prop("G04", "Attribute callbacks run once per use and their edits reach the file",
     """For every attribute on a class, method or enum the callback registered under that name is called once per use (C++: once per file of an enum), in declaration order, class
     attributes before those of methods, with the full generated text of that type, the type's name, and for methods the foreign method name and kind.
     What callbacks write into the text is what the file contains, nothing else in the output changes, and an attribute without callback is an error naming it and its place.""",
     ["programs", "configurations"], "all placements of attributes and sets of registered callbacks",
     "one test per language registers callbacks for one fixed class",
     ["macroslib/src/extension.rs", "macroslib/src/lib.rs", "macroslib/src/code_parse.rs", "macroslib/src/cpp/fclass.rs", "macroslib/src/cpp/fenum.rs", "macroslib/src/java_jni/fclass.rs",
      "macroslib/src/java_jni/fenum.rs"],
     [("calls of the callbacks", "macroslib/src/extension.rs"), ("parsing of attributes", "macroslib/src/code_parse.rs")],
     "Random interfaces for C++ and Java (Python refuses attribute callbacks); callbacks append text and log what they are given.",
     "property-based testing: random attribute placements, log of callback calls and differences of the output against the expected ones",
     ["log of callback calls", "output with and without attributes"])
prop("G05", "Bad input is refused with file, line and column, never by an internal failure",
     """Whatever the text of the sources is, the generator either succeeds or stops with a message that names a given source file and a line and column inside it; it never fails
     internally, and a refused run leaves the Rust output as it was. For an unknown type, unknown attribute, broken item or wrong receiver the place is that of the culprit,
     in whichever of several files and at whatever line it stands.""",
     ["inputs"], "all source texts",
     "the tests have a handful of wrong inputs and look only at the fact of the refusal",
     ALL, [("messages", "macroslib/src/error.rs"), ("parsing", "macroslib/src/code_parse.rs"), ("expansion", "macroslib/src/lib.rs")],
     """About 50 broken constructs at random places of random files, and valid interfaces of all kinds changed at one to three random tokens (shrunk by dropping tokens).""",
     "fuzzing: token mutations of valid sources and injection of broken constructs; every end but success or a message with a place is a violation",
     ["messages and exit of the generator", "the Rust output after a refusal"])
prop("M01", "C++: user-written type maps act exactly as written, in every position",
     """A foreign_typemap! in user code, whatever mixture of r_type, f_type, options, unique_prefix, temporaries, generic parameters, define_c_type and req_modules it uses,
     is applied exactly once per value, in its own direction, wherever its type stands: as argument or result of methods and callbacks, inside Option, tuples, Result and
     the user's own generic types. Different maps, several uses in one method and the names chosen for variables do not influence each other.""",
     ["programs", "configurations", "inputs"], "all maps the C++ generator accepts, in all positions and combinations, with all values",
     "the tests have about five fixed maps, whose generated code is compared as text and never run with random values",
     CPP + ["macroslib/src/typemap/typemap_macro.rs", "macroslib/src/typemap/typemap_macro/parse.rs", "macroslib/src/typemap/merge.rs", "macroslib/src/str_replace.rs"],
     [("expansion of user maps", "macroslib/src/typemap/typemap_macro.rs"), ("parsing", "macroslib/src/typemap/typemap_macro/parse.rs"), ("merging into the map", "macroslib/src/typemap/merge.rs")],
     """Random interfaces with 6 to 10 random maps each; each map's two halves are random non-symmetric integer bijections or string rotations, so that a half applied twice, left out
     or taken from another map changes the value. Maps the generator refuses with a message are outside; so are two user types with the same C++ type inside Option of one interface.""",
     "property-based testing: random user type maps in random interfaces, compiled and run, values compared with a reference model",
     ["driver's view of each result", "the Rust side's log of each call"])
prop("M02", "Java: user-written type maps act exactly as written, in every position",
     """A foreign_typemap! in user code, whatever mixture of r_type, f_type, NullAnnotations options, unique_prefix, temporaries and generic parameters it uses, is applied exactly
     once per value, in its own direction, wherever its type stands: as argument or result of methods, inside Result and the user's own generic types and, where it needs
     no Java code, in callbacks. Different maps, several uses in one method and the names chosen for variables do not influence each other.""",
     ["programs", "configurations", "inputs"], "all maps the Java generator accepts, in all positions and combinations, with all values",
     "the tests have a few fixed maps (dates), called with one or two values",
     JAVA + ["macroslib/src/typemap/typemap_macro.rs", "macroslib/src/typemap/typemap_macro/parse.rs", "macroslib/src/typemap/merge.rs", "macroslib/src/str_replace.rs"],
     [("expansion of user maps", "macroslib/src/typemap/typemap_macro.rs"), ("use of Java code", "macroslib/src/java_jni/fclass.rs"), ("choice of map", "macroslib/src/java_jni/map_type.rs")],
     """Random interfaces with 14 random maps each; each map's two halves are random non-symmetric integer bijections or string rotations, so that a half applied twice, left out
     or taken from another map changes the value; the foreign types are user classes, library classes, arrays and primitives. Maps the generator refuses with a message are outside.""",
     "property-based testing: random user type maps in random interfaces, compiled and run, values compared with a reference model",
     ["driver's view of each result", "the Rust side's log of each call"])
