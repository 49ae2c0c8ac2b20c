TRUSTED = [
    'clang 18 parser and AST (libclang-cpp) and extractor/extract.cc, which serialises it',
    'cv/engine.py, cv/stl.py, cv/spec.py, cv/verify.py: symbolic execution, STL models, obligation generation',
    'z3 (python module 4.x and /usr/bin/z3 4.8.12), cvc5 1.1.2',
]
ASSUMPTIONS = [
    'machine integers and floating point are treated as mathematical integers and reals (EUROPA edouble/eint arithmetic by the contracts of property P01)',
    'debugMsg/condDebugMsg streaming, logging and string formatting are dropped; implicit destructors of locals have no modelled effect',
    'std::set, std::map, std::list, std::vector, std::string and iterators follow the models of cv/stl.py',
    'Id<T> handles are valid pointers to distinct live objects; distinct reference parameters do not alias unless the contract says so',
    'the class hierarchy is the one found in the loaded sources (closed world); data types are immutable while a function runs',
    'partial correctness: termination is not proved; throws clauses mean "may throw only if"',
    'finite non-empty sets of numbers have a least and a greatest element (contract clauses marked ! are assumed facts of this kind)',
]
