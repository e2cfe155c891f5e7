#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the text lives here so that it stays readable)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))


prop('P01', 'Canonical type spelling preserves meaning and is unique',
     "Normalising a C/C++ type expression yields an expression that denotes the same type (same base name and template arguments, same sequence of pointer and reference levels, same const/volatile qualification at every level). Two spellings of one type that differ only in white space, in the position of a qualifier around the base name, or in a redundant leading '::' on that name normalise to the same text. Normalising an already normalised expression changes nothing.",
     ['inputs'], 'every well-formed type expression: base names, template argument lists, any mix of const/volatile, * and & levels, any legal spacing',
     'the doctests fix about ten spellings; the space of qualifier positions x pointer levels x spacing x nesting is combinatorial and a mis-parsed spelling only shows as a wrong handler or uncompilable output much later',
     ['pybindgen/typehandlers/ctypeparser/__init__.py', 'pybindgen/typehandlers/ctypeparser/tokenizer.py'],
     [('tokeniser', 'ctypeparser/tokenizer.py GetTokens'), ('qualifier reordering and printing', 'ctypeparser/__init__.py CType, normalize_type_string')])

prop('P02', 'Type classification (const, pointer, reference, target) is exact',
     "For a parsed type, the outermost level is reported const exactly when that level carries const, reported pointer/reference exactly when the outermost declarator is one, and the target is reported const exactly when the pointed-to or referred-to level carries const. The derived types are the original with exactly the named parts removed: all top-level-list qualifiers, the outermost const, or the outermost const and then the reference. Making a type (or its target) const adds that qualifier at that level and changes nothing else.",
     ['inputs'], 'every type expression as in P01',
     'doctests cover four shapes; handlers decide copying, ownership and constness from these flags, so one wrong flag on an unusual shape silently changes generated code',
     ['pybindgen/typehandlers/ctypeparser/__init__.py'],
     [('classification', 'TypeTraits.__init__'), ('const insertion', 'TypeTraits.make_const, make_target_const')])

prop('P03', 'Type lookup finds the registered handler for every spelling',
     "Looking up a type, however spelled (spacing, qualifier position, any const/volatile), finds the handler registered for that type; failing that the handler of a type connected to it by alias declarations, followed through chains in either direction (a later declaration for the same name replaces the earlier one); failing that one offered by a registered type transformation; otherwise a lookup error is raised. It never finds the handler of an unconnected type. Lookups terminate for every set of registrations and aliases, cycles included, and do not change the answers of later lookups.",
     ['inputs', 'histories'], 'every history of handler registrations and alias registrations (any order, any spelling, cycles included) followed by lookups of any spelling',
     'tests register handlers in a few fixed orders; alias chains, spelling variants and registration histories are unbounded',
     ['pybindgen/typehandlers/base.py'],
     [('registry', 'TypeMatcher.register, lookup, add_type_alias')])

prop('P04', 'Generated local variables never collide',
     "Within one generated function scope, every variable name handed out is distinct from every other name declared or reserved in that scope, whatever names are requested and in whatever order. The first request for a name that is still free gets exactly that name, and each declared name is declared exactly once in the emitted declarations, with the requested type and initialiser.",
     ['inputs', 'histories'], 'every sequence of declare/reserve requests over arbitrary names, including names that look like generated ones (foo, foo2, ...)',
     'tests only request the handful of names the built-in handlers use; collisions need specific sequences of user parameter names',
     ['pybindgen/typehandlers/base.py'],
     [('scope', 'DeclarationsScope.declare_variable, reserve_variable')])

prop('P05', 'Every exit path runs exactly the pending cleanups, newest first',
     "In a generated function, the code run on any error exit or on the normal exit contains each registered and not cancelled cleanup action exactly once, in the reverse order of registration, including those of earlier blocks of the same function, and never a cleanup registered after that exit was written or cancelled before it. Error exits end with the configured error return.",
     ['histories'], 'every interleaving of write, error-check, register-cleanup, cancel-cleanup and write-cleanup over a chain of dependent blocks',
     'the code generator tests use the straight-line orders of the built-in handlers; cancellation and multi-block interleavings are user-handler territory',
     ['pybindgen/typehandlers/base.py'],
     [('cleanup lists', 'CodeBlock.add_cleanup_code, write_cleanup, get_cleanup_code, write_error_check, CleanupHandle.cancel')])

prop('P06', 'Parse and build format strings match their argument lists',
     "For every sequence of parameters added to an argument parser or value builder, the emitted format string has exactly one unit per parameter in the order the parameters must appear (prepended ones first), followed by exactly the C arguments that unit consumes, in the same order. An argument parser marks as optional exactly the parameters declared optional, all of them after the required ones, its keyword list has one name per unit followed by a terminator, and asking twice or resetting in between yields no stale content.",
     ['histories'], 'every sequence of add (optional or not, prepended or not, with 0..2 C arguments and any unit), reset and query operations',
     'a mismatch is undefined behaviour in C varargs that happens to work for the parameter mixes in the test module',
     ['pybindgen/typehandlers/base.py'],
     [('format assembly', 'ParseTupleParameters, BuildValueParameters')])

prop('P07', 'Scalar and string arguments and results cross unchanged or are rejected',
     "When a wrapped call is made, the C function is called exactly once and receives, in declaration order, exactly the values passed from Python (or the declared default for an omitted optional argument), and the caller gets back exactly the C return value followed by the output parameters in declaration order. A Python integer passed by value to an 8- or 16-bit parameter is rejected with an exception unless it fits in that C type, integers that fit are always accepted (wider, by-reference and pointer integer parameters may instead reduce an out-of-range value modulo 2^width), and no conversion reads or writes memory outside the C variables it owns.",
     ['inputs', 'programs'], 'every wrapped function signature over the built-in scalar and string type handlers (all directions, optional parameters, returns) and every 64-bit integer, boolean, float and string value',
     'the test module calls each handler with one or two values; boundary values, negative values, and width mismatches of output storage are not reachable by samples',
     ['pybindgen/typehandlers/inttype.py', 'pybindgen/typehandlers/booltype.py', 'pybindgen/typehandlers/doubletype.py', 'pybindgen/typehandlers/floattype.py', 'pybindgen/typehandlers/stringtype.py', 'pybindgen/typehandlers/pyobjecttype.py', 'pybindgen/enum.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py'],
     [('conversions', 'typehandlers/*.py convert_python_to_c / convert_c_to_python'), ('call assembly', 'typehandlers/base.py ForwardWrapperBase.generate_body')])

prop('P08', 'Wrappers neither leak nor over-release Python references',
     "On every path through a generated function, successful or failing, the number of references it has taken on each Python object equals the number it has released, except the references it hands over: the returned new reference, references stored in a live wrapper object, and references a parameter is documented to steal. No Python object is used after its last reference was released.",
     ['inputs', 'programs', 'fault_sequences'], 'every wrapper shape over the built-in handlers and every outcome of each Python API call and wrapped call on the path (bad argument, conversion failure, C++ exception, null result)',
     'tests observe values, not counts; leaks on error paths are invisible to them',
     ['pybindgen/typehandlers/base.py', 'pybindgen/cppclass.py', 'pybindgen/container.py', 'pybindgen/cppattribute.py', 'pybindgen/overloading.py', 'pybindgen/pytypeobject.py'],
     [('reference handling in generated code', 'convert_* methods, ForwardWrapperBase/ReverseWrapperBase, overloading')])

prop('P09', 'A wrapper reports failure exactly when it has set an exception',
     "A generated function returns its failure value (null or -1) if and only if a Python exception is set at that moment, and once an argument or conversion has failed the wrapped C++ function is not called. After a successful return no exception is pending.",
     ['inputs', 'programs', 'fault_sequences'], 'every wrapper shape and every outcome of the Python API calls on its paths',
     'tests check a few expected exceptions; a missing or stray exception on a rare path shows up as SystemError or a delayed unrelated error',
     ['pybindgen/typehandlers/base.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py', 'pybindgen/overloading.py', 'pybindgen/cppattribute.py', 'pybindgen/pytypeobject.py', 'pybindgen/container.py'],
     [('error returns', 'write_error_check, error_return, parse_error_return')])

prop('P10', 'Every C++ object is released exactly once, by its owner',
     "A C++ object that a Python wrapper owns is released exactly once, when that wrapper dies, and never while the wrapper still refers to it; one that the wrapper does not own is never released by it. Ownership follows the declared transfer: a parameter or return value declared to transfer ownership moves the object, one declared not to leaves it with its previous owner, and with reference-counted or shared-pointer policies every acquired count is released once. Objects passed or returned by value are independent copies.",
     ['inputs', 'programs', 'histories'], 'every combination of memory policy (plain delete, free function, reference counting, shared pointer), passing mode and ownership flag, on every success and failure path',
     'leaks and double frees depend on flag combinations and failure points the test module does not contain',
     ['pybindgen/cppclass.py', 'pybindgen/typehandlers/smart_ptr.py'],
     [('ownership code', 'cppclass.py *Parameter/*ReturnValue handlers, memory policies, tp_dealloc'), ('smart pointers', 'typehandlers/smart_ptr.py')],
     state=[dict(name='wrapper flags', meaning='whether the wrapper owns the C++ object')])

prop('P11', 'Overloads are tried in order and the first that accepts is the only one run',
     "Calling an overloaded function, method or constructor runs exactly one C++ overload: the first, in registration order, whose parameters accept the arguments. If none accepts, TypeError carrying the reason from every overload is raised and no C++ code runs; an exception raised by the accepted overload itself is propagated and is not treated as a mismatch.",
     ['inputs', 'programs'], 'every set of overloads and every argument tuple, including those several overloads accept, and wrapped functions that raise',
     'the tests have a few overload sets with clearly disjoint arguments',
     ['pybindgen/overloading.py', 'pybindgen/typehandlers/base.py'],
     [('dispatcher', 'overloading.py OverloadedWrapper.generate')])

prop('P12', 'The interpreter lock is held whenever Python is used and is restored',
     "A wrapper that releases the interpreter lock around the wrapped call reacquires it before touching any Python object and before returning, on every path including C++ exceptions; a wrapper not asked to release it never does. A virtual-method callback acquires the lock before touching Python and restores the previous state exactly once on every exit.",
     ['schedules', 'programs', 'fault_sequences'], 'every wrapper shape with and without lock release, and every failure point on its paths',
     'a missing reacquire only fails under threads at the wrong moment or when the wrapped function throws',
     ['pybindgen/typehandlers/base.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py'],
     [('lock handling', 'ForwardWrapperBase.generate_body unblock_threads, ReverseWrapperBase.generate')])

prop('P13', 'C++ exceptions declared to be thrown become the matching Python exception',
     "If a wrapped function, method or constructor throws an exception it was declared to throw, the wrapper raises the Python exception mapped to the first declared C++ exception class that matches (carrying the rendered message when one is configured), the C++ exception does not escape, and everything the wrapper had acquired is released. If nothing is thrown the declaration has no effect on the result.",
     ['inputs', 'programs', 'fault_sequences'], 'every wrapper shape with declared exceptions (built-in or custom Python type, message expression or not, several classes) and every throw point',
     'tests throw from a few functions with no other resources held',
     ['pybindgen/cppexception.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py'],
     [('catch blocks', 'generate_call in function.py / cppmethod.py, CppException.write_convert_to_python')])

prop('P14', 'A ward lives at least as long as its custodian',
     "When a custodian/ward relation is declared for a call, after the call succeeds the custodian holds a reference to the ward, so the ward cannot be destroyed before the custodian, and releases that reference when it dies. Wards accumulate over repeated calls, no other object is kept alive, and a missing (None) participant is handled without error.",
     ['inputs', 'programs', 'histories'], 'every custodian/ward pair over self, return value and parameters, before or after the call, and every sequence of such calls',
     'tests cover a few pairs and one call each',
     ['pybindgen/cppclass.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py'],
     [('ward lists', 'cppclass.py implement_parameter_custodians_precall/postcall, _add_ward')])

prop('P15', 'Virtual calls from C++ reach the Python override with the right values',
     "When C++ calls a virtual method of an object created from a Python subclass, the Python override (if any) is called exactly once with the C++ argument values, and its result and output values become the C++ result; without an override the C++ implementation of the parent is called with the same arguments. If the override raises or returns something unusable, the error is reported and a documented fallback is returned, and on every path the wrapper object refers to the same C++ object as before the call.",
     ['inputs', 'programs', 'fault_sequences'], 'every virtual method signature over the supported reverse handlers and every override outcome (absent, returns, raises, wrong type)',
     'tests override a few methods whose overrides all succeed',
     ['pybindgen/cppmethod.py', 'pybindgen/typehandlers/base.py', 'pybindgen/cppclass.py'],
     [('proxy generation', 'cppmethod.py CppVirtualMethodProxy, base.py ReverseWrapperBase')])

prop('P16', 'Containers convert element by element and fail cleanly',
     "Converting a Python list (of items, or of key/value pairs for a mapping) to a C++ container stores exactly the converted items in order, an existing wrapper is copied, and anything else, or any bad item, fails with an exception without calling the wrapped function. Iterating a wrapped container yields each stored element (key and value for a mapping) exactly once in container order and then stops, and the iterator keeps its container alive.",
     ['inputs', 'programs'], 'every supported container and element kind, every list up to the bound in length with any element failing',
     'tests use fixed short lists with valid elements',
     ['pybindgen/container.py', 'pybindgen/cppclass_container.py', 'pybindgen/converter_functions.py'],
     [('conversion', 'container.py Container._generate_container_constructor'), ('iteration', 'IterNextWrapper')])

prop('P17', 'Operators, comparisons and the sequence protocol map to the C++ operation',
     "Each wrapped operator, comparison or conversion-like slot performs exactly the C++ operation registered for it on the operands in Python order, for every operand type registered and for no other (which yields NotImplemented so that Python raises TypeError or tries the reflected operation). Sequence slots pass the exact index and value through to the wrapped method and report its result or failure faithfully.",
     ['inputs', 'programs'], 'every registered operator/comparison/sequence slot, every operand type and every index value in the platform range',
     'tests use small indices and well-typed operands',
     ['pybindgen/cppclass.py', 'pybindgen/pytypeobject.py'],
     [('number and comparison slots', 'cppclass.py _generate_number_methods, _generate_tp_richcompare'), ('sequence slots', 'pytypeobject.py PySequenceMethods')])

prop('P18', 'Attribute access reads and writes exactly the C++ attribute',
     "Reading a wrapped instance or static attribute returns its current C++ value (through the declared getter, if any) and writing it stores exactly the given value (through the declared setter, if any) and nothing else; a value of the wrong type, or deletion, raises an exception and leaves the attribute unchanged. Attributes declared read-only cannot be written.",
     ['inputs', 'programs'], 'every attribute type supported by the handlers and every value, including invalid ones and deletion',
     'tests read and write a few valid values and never delete or fail a write',
     ['pybindgen/cppattribute.py'],
     [('getters and setters', 'cppattribute.py CppInstanceAttributeGetter/Setter, CppStaticAttributeGetter/Setter')])

prop('P19', 'One live C++ object has one Python wrapper when identity is tracked',
     "With wrapper tracking enabled, returning a C++ object that already has a live Python wrapper returns that same wrapper, otherwise a new one is created and recorded. A wrapper's record is removed when it dies, so a later object at the same address never yields a dead wrapper.",
     ['histories', 'programs'], 'every history of returning, wrapping and destroying objects, for pointer returns and the supported registry kinds',
     'address reuse and record removal depend on allocation history',
     ['pybindgen/wrapper_registry.py', 'pybindgen/cppclass.py'],
     [('registry code', 'wrapper_registry.py'), ('lookup before wrapping', 'cppclass.py return/parameter handlers')])

prop('P20', 'Inheritance is respected when objects cross the boundary',
     "An argument of a class type accepts instances of that class and its registered subclasses, passes C++ a pointer to the right base subobject, and rejects everything else except None where allowed and the declared implicit conversions. A returned pointer to a polymorphic base is wrapped in the most derived registered class of the actual object, and in the declared class if none is registered.",
     ['inputs', 'programs'], 'every class hierarchy shape in the corpus (single chain, inner classes, implicit conversion) and every dynamic type of argument or result',
     'tests use one small hierarchy',
     ['pybindgen/cppclass.py'],
     [('type checks', 'cppclass.py CppClass*Parameter'), ('down-casting', 'CppHelperClass/typeid_map, get_pytypestruct code')])

prop('P21', 'A generated module defines and registers each declared entity exactly once',
     "Whatever set of functions, classes, enums, constants and namespaces is declared, and however it is split over output sections, each entity that can be wrapped is defined exactly once and registered exactly once in the module table it belongs to, and nothing is registered that was not defined. An entity the configured error handler chooses to skip leaves no registration behind and does not affect the others; without such a handler generation stops with the error.",
     ['programs', 'configurations'], 'every API description over the supported entity kinds, every assignment to sections and every subset of entities failing to generate',
     'tests generate four fixed modules; failures and splits are sampled once',
     ['pybindgen/module.py', 'pybindgen/overloading.py', 'pybindgen/utils.py', 'pybindgen/cppclass.py'],
     [('emission', 'module.py Module.do_generate, MultiSectionFactory'), ('error handling', 'utils.call_with_error_handling, settings.ErrorHandler')])

prop('P22', 'Mangled names are valid identifiers and distinct for distinct types',
     "The C identifier derived from any C++ type or template name is a valid C identifier, depends only on the type and not on its spacing, and differs for different types that can occur in one module.",
     ['inputs'], 'every type expression over the supported grammar',
     'tests mangle a handful of names; a collision merges two unrelated generated functions or types',
     ['pybindgen/utils.py'],
     [('mangling', 'utils.py mangle_name, get_mangled_name')])

prop('P23', 'Code sinks reproduce the written text in order at the right indentation',
     "Text written to a code sink, directly or through any chain of in-memory sinks flushed into one another, arrives exactly once and in order (up to trailing white space), each line indented by the indentation in force when it was written plus that of the sink it is flushed into, and no indentation is added inside a line. Flushing twice does not repeat text.",
     ['histories'], 'every sequence of write, indent, unindent and flush operations over chained sinks, with multi-line and empty lines',
     'tests only look at compiled behaviour of the generated module',
     ['pybindgen/typehandlers/codesink.py'],
     [('sinks', 'codesink.py CodeSink, MemoryCodeSink, FileCodeSink')])

prop('P24', 'Header annotations are understood exactly as written',
     "Annotations in header comments and the per-call annotation dictionaries reach exactly the definition they precede, with every key, value and parameter name as written; a malformed or unused annotation never changes another definition. Parameter and return annotations translate to the documented options, whatever their order and spacing.",
     ['inputs'], 'every annotation comment over the documented grammar, every placement relative to definitions',
     'tests scan one header with a fixed annotation style',
     ['pybindgen/castxmlparser.py'],
     [('annotation scanner', 'castxmlparser.py AnnotationsScanner')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
