LIB_T = ('abstract interpretation of the compiled MIR of hyperdrive\'s own functions with opaque handlers, services, '
         'errors and bodies; every path is enumerated and its result and effects compared with the specification')
LIB_N = ('Decides every path of the analysed functions for all requests, with one witness instantiation of the generic '
         'parameters. Trusts the transfer functions for http, hyper, futures, tokio-threadpool, serde and std.')
TECH = {'C%d' % i: (LIB_T, LIB_N) for i in range(16, 26)}
NA = {
    'C30': 'Quantifies over the grammars and value mappings implemented inside serde_json and serde_urlencoded and over '
           'every user Deserialize impl: runtime values no sound static argument about this repository can bound. '
           'What is this repository\'s part (complete body, right decoder, errors kept) is C24.',
    'C31': 'A liveness property of every interleaving of concurrent futures under an arbitrary executor; static '
           'analysis of the source decides the absence of blocking calls (C28) but not progress of user futures.',
    'C32': 'The list is an arbitrary runtime value chosen by the application; hyperdrive stores and joins it '
           '(C22, C23) and has no means to restrict it.',
}
WIT_N = ('Covers every generated witness program, and those with type parameters universally; declarations outside the '
         'enumeration are not covered. Trusts the compiler\'s type checker; nothing is executed.')
TECH.update({
    'C11': ('compile-fail witnesses: tens of thousands of declarations are expanded by the compiler and its verdict is '
            'compared with emptiness of the intersection of the patterns\' regular languages',
            'Exhaustive over pairs of patterns up to a length bound, in both orders, and over pairs of routes; trusts '
            'that macro expansion is deterministic (C27). Nothing of the router is executed.'),
    'C12': ('compile-fail witnesses: every malformed declaration must fail to compile while a well-formed twin, '
            'differing only in the defect, compiles', WIT_N),
    'C14': ('compile witnesses: every feature type-checked in a crate that has only hyperdrive, next to user items '
            'with the name of each imported item and incompatible signatures', WIT_N),
    'C15': ('type-level assertions of Send, Sync, Clone and \'static, universally quantified over generic parameters, '
            'and compile-fail witnesses for parts that are not Send', WIT_N),
    'C26': ('compile and compile-fail witnesses for the AsRef impls plus abstract interpretation of the compiled MIR of '
            'every generated AsRef impl (which field the reference points to)', WIT_N),
    'C29': ('compile witnesses: every well-formed declaration of a hand-written list and a seeded corpus must expand '
            'and type-check', WIT_N),
})
TECH.update({
    'C27': ('effect analysis: whole-program call graph of the macro crate from the compiled MIR; no order-revealing use of '
            'hash tables, no time, environment, file, thread, address or mutable global state reachable from a derive',
            'Covers every path of every function reachable from both derive entry points in hyperderive, synstructure, '
            'syn, quote and proc_macro2. Trusts IndexMap to keep insertion order and regex to be deterministic.'),
    'C28': ('effect analysis: whole-program monomorphic call graph from every asynchronous entry point and every derived '
            'impl of the corpus; no blocking primitive reachable outside the closure run by tokio_threadpool::blocking',
            'Covers every path through all crates below the entry points. Trusts the short internal locks of listed '
            'dependencies; calls through user code are outside.'),
})
EFF_N = ('Covers every path of every own function reachable from the asynchronous entry points and from the derived impls '
         'of the corpus. What other crates do inside is taken from their documented interfaces; user code is outside.')
TECH.update({
    'C33': (LIB_T, LIB_N),
    'C34': (LIB_T + '; pending answers of everything a future waits for are part of the enumeration', LIB_N),
    'C35': ('effect analysis: whole-program monomorphic call graph, statics and their interior mutability, plus abstract '
            'interpretation of every `call` for changes to the service', EFF_N),
    'C36': ('query over the type-checked program (HIR) of both crates and of the expanded corpus: unsafe blocks, functions, '
            'traits, impls, foreign items, mutable statics', 'Exhaustive over the source of both crates; generated code '
            'is covered as far as the corpus contains every template. Macros of other crates are trusted.'),
    'C37': ('effect analysis: no spawning, leaking, forgetting or global storage by own functions in the whole-program '
            'monomorphic call graph', EFF_N),
    'C38': ('effect analysis: no process-ending call by own functions, and no cycle of the whole-program monomorphic call '
            'graph through them', EFF_N),
    'C39': ('effect analysis: reachability of regex compilation in the whole-program monomorphic call graph, cut at '
            'one-time initialisers of statics', EFF_N),
    'C40': ('compile witnesses with lints: well-formed declarations of a list of unusual ones and the corpus must expand '
            'without any warning', WIT_N),
    'C41': ('compile-fail witnesses: the diagnostics of every refused declaration of the C11 and C12 enumerations are parsed '
            'and compared with the declarations (language intersection of the named routes, membership of the example path)',
            WIT_N),
    'C42': ('type-level witnesses: client programs over universally quantified type parameters must type-check', WIT_N),
})
