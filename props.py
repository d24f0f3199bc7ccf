"""What each property is decided with."""


def T(cmd, spec, n, shards=(5, 8), **kw):
    """record with the driver, validate with TLC"""
    d = dict(kind='trace', cmd=cmd, spec=spec, n=dict(quick=n[0], thorough=n[1]),
             shards=dict(quick=shards[0], thorough=shards[1]))
    d.update(kw)
    return d


def MC(cmd, spec, env, **kw):
    """enumerate with TLC, perform on the code"""
    d = dict(kind='mc', cmd=cmd, spec=spec, env=env)
    d.update(kw)
    return d


def heap(p):
    return dict(
        level='model_checking',
        rule='Heap.tla: (1) every operation sequence up to the depth bound, enumerated by TLC (HeapMC), is performed on '
             'real collections and the result and the whole resulting heap is compared; (2) random sequences of calls '
             '(seeded) on real collections are recorded and validated by TLC (HeapTrace). An evaluation is one call on '
             'a real collection; distinct ones differ in operation, arguments, receiver or result.',
        stages=[
            T('heap', 'HeapTrace', (10000, 60000), shards=(7, 8)),
            MC('replayheap', 'HeapMC', dict(PROFILE=p, DEPTH=dict(quick=2, thorough=3), MOD=1), heap='6g'),
        ])


def types(rule, *stages, **kw):
    return dict(level='model_checking', rule=rule + ' An evaluation is one recorded observation with all of its pairs.',
                stages=list(stages), **kw)


PROPS = {
    'P01': heap('P01'),
    'P02': heap('P02'),
    'P03': heap('P03'),
    'P04': heap('P04'),
    'P05': types('Equality of values and of types, hash codes and lookups of pools of values (types) that are close to each '
                 'other and built in different ways are recorded; TLC evaluates Eq (Same) of Types.tla on each pair and triple.',
                 T('eq', 'TypesTrace', (25000, 200000), shards=(3, 8), history=False),
                 T('eqt', 'TypesTrace', (15000, 120000), shards=(4, 8), history=False)),
    'P06': types('CompareTo of each pair of pools of values is recorded, and the outcome of Sort; TLC compares with Cmp and '
                 'stable insertion of Types.tla.',
                 T('cmp', 'TypesTrace', (25000, 200000), shards=(7, 8), history=False)),
    'P07': types('The verdict of Instance for random types and values that are near their border is recorded; TLC evaluates '
                 'the denotation In of Types.tla for each pair.',
                 T('inst', 'TypesTrace', (40000, 250000), shards=(7, 8), history=False)),
    'P08': types('What types that are close to each other are assignable from is recorded, together with values at their '
                 'borders. TLC evaluates the denotation In for each type and value and refutes each assignability that a value '
                 'contradicts; it also evaluates rules (Must) that say when assignability must not be refused.',
                 T('asg', 'TypesTrace', (20000, 250000), shards=(7, 8), history=False)),
    'P09': types('For random types and values: the generic form of the type, which values it accepts and whether it is its own '
                 'generic form; the type of each value of a pool of close values and which values it accepts. TLC compares with '
                 'the denotation In and with Eq of Types.tla.',
                 T('gen', 'TypesTrace', (30000, 200000), shards=(4, 8), history=False),
                 T('exact', 'TypesTrace', (20000, 150000), shards=(3, 8), history=False)),
    'P10': types('Types made by the factories and by the parser, with strings and numbers of any content, are printed and parsed. '
                 'TLC decides with Grammar.tla what the printed text denotes, and that must be the type that was printed.',
                 T('print', 'GrammarTrace', (30000, 250000), shards=(7, 8), history=False)),
    'P11': types('Grammar.tla defines the lexer, the grammar and what each text denotes. (1) All sequences of tokens up to a length '
                 'from seven alphabets and (2) random valid texts, texts with some damage, and random tokens and characters are '
                 'parsed; TLC computes for each whether it is accepted, what it denotes and where an error is.',
                 T('parse', 'GrammarTrace', (30000, 250000), shards=(7, 8), history=False),
                 T('parse', 'GrammarTrace', (0, 0), shards=(8, 8), history=False, mode='3'),
                 T('parse', 'GrammarTrace', (0, 0), shards=(8, 8), history=False, mode=dict(quick='4', thorough='5'))),
    'P12': types('JsonText.tla says what a JSON text denotes and Stream.tla what that stands for, including what is shared. (1) Values with '
                 'rich data, sharing and cycles are marshalled and unmarshalled, (2) JSON texts, valid and damaged, with references and '
                 'rich data, are unmarshalled. TLC decides what each text means and compares with the value.',
                 T('json', 'StreamTrace', (12000, 150000), shards=(4, 8), history=False),
                 T('unjson', 'StreamTrace', (12000, 150000), shards=(3, 8), history=False),
                 T('json', 'StreamTrace', (9, 60), shards=(8, 8), history=False, mode='large')),
    'P13': types('Stream.tla says what a sequence of events builds, what that stands for, what is shared in it, and what '
                 'events are allowed by the options and the abilities of the consumer. Values with rich data, sharing and cycles are '
                 'streamed with all options to consumers of all abilities; TLC interprets the events and compares with the value and '
                 'with what the collectors, the decoder and the JSON encoder made of them.',
                 T('stream', 'StreamTrace', (20000, 250000), shards=(7, 8), history=False),
                 T('stream', 'StreamTrace', (10, 70), shards=(8, 8), history=False, mode='large')),
    'P14': dict(level='model_checking', race=True,
                rule='Loader.tla: (1) every interleaving of calls by two or three processes on four hierarchies of loaders up to '
                     'a bound, stopped at every finder and creator, is enumerated by TLC (which checks that entries are stable and that '
                     'all callers agree) and performed on real loaders; (2) random schedules of that kind are recorded and validated; '
                     '(3) calls that run in parallel under the race detector are recorded, and TLC searches for an order of their '
                     'atomic steps that explains the history. An evaluation is one step of a process.',
                stages=[
                    T('loader', 'LoaderTrace', (15000, 200000), shards=(2, 6)),
                    T('loaderfree', 'LoaderFree', (10000, 100000), shards=(2, 6)),
                    MC('replayloader', 'LoaderMC', dict(DEPTH=dict(quick=3, thorough=4), NP=2, RICH=1), parts=4),
                    MC('replayloader', 'LoaderMC', dict(DEPTH=dict(quick=4, thorough=6), NP=2, RICH=0), parts=4),
                    MC('replayloader', 'LoaderMC', dict(DEPTH=5, NP=3, RICH=0), parts=4, tier='thorough'),
                ]),
    'P15': dict(level='model_checking', race=True,
                rule='Alias.tla: (1) every interleaving of calls by two processes that add, redefine, parse and reference two names, '
                     'up to a bound and stopped at every gate, is enumerated by TLC (which checks that additions are retained, that maps '
                     'are resolved and that the two directions agree) and performed on real alias maps; (2) random schedules with longer '
                     'scripts, four names, several maps and deeper types are recorded and validated, including which values the types '
                     'accept; (3) calls that run in parallel under the race detector are recorded and TLC searches for an order of their '
                     'atomic steps that explains the history. An evaluation is one step of a process.',
                stages=[
                    T('alias', 'AliasTrace', (8000, 100000), shards=(2, 6)),
                    T('aliasfree', 'AliasFree', (3000, 40000), shards=(2, 6)),
                    MC('replayalias', 'AliasMC', dict(DEPTH=dict(quick=4, thorough=5), NP=3, RICH='tiny', PARTS=1)),
                    MC('replayalias', 'AliasMC', dict(DEPTH=2, NP=2, RICH=1, PARTS=16), parts=dict(quick=3, thorough=16)),
                    MC('replayalias', 'AliasMC', dict(DEPTH=3, NP=2, RICH=0, PARTS=64), parts=dict(quick=4, thorough=64)),
                ]),
    'P16': types('GoValues.tla says which dgo value a go value of a go type is, what assigning a value to a go type makes or that it must '
                 'be refused. Conversions of random go values of random go types (made with reflection) to and fro and into other types '
                 'are recorded and compared. GoStruct.tla is a state machine of wrapped go structs, views, and what they refer to; '
                 'histories of operations by the go program and on the views are recorded, and the outcome of each and all that can be '
                 'seen after it is compared.',
                 T('goval', 'GoTrace', (40000, 400000), shards=(4, 8), history=False),
                 T('gostruct', 'GoStructTrace', (10000, 100000), shards=(3, 8))),
    'P17': types('What is told (string forms, types, errors, reports, refusals of conversions and of streams) about groups of values that differ only in '
                 'what sensitives wrap is recorded; SensitiveTrace.tla demands the same words. Wrapping, unwrapping, copying, '
                 'freezing, equality and hashes are recorded and compared with Eq of Types.tla.',
                 T('sensitive', 'SensitiveTrace', (12000, 120000), shards=(7, 8), history=False)),
    'P18': types('New.tla says what New makes of a type and arguments (numerals in each radix and at the limits of their range, texts of '
                 'times, encodings, conversions between kinds) or that it must be refused. New of random types and arguments is '
                 'recorded, TLC compares the outcome with that and with In of Types.tla.',
                 T('new', 'NewTrace', (60000, 500000), shards=(7, 8), history=False)),
    'P19': types('Reports of Validate and ValidateVerbose for random struct types and maps near their border are recorded, with what the '
                 'type says of its entries. TLC decides with In of Types.tla which entries must be reported, and whether any.',
                 T('validate', 'TypesTrace', (20000, 200000), shards=(7, 8), history=False)),
    'P20': dict(level='model_checking',
                rule='Cyclic.tla: graphs of collections that may contain themselves, and of types, where equality and instances are '
                     'greatest fixed points. TLC checks (CyclicMC, all graphs up to a size) that walks and copies that remember only what '
                     'they are within terminate and decide the same. All graphs up to a size and random larger ones, random '
                     'recursive types, and what equality, order, hashes, texts, types, searches, freezing, copies and additions make of '
                     'them are recorded and compared with that. An evaluation is a graph.',
                stages=[T('cyclic', 'CyclicTrace', (40000, 400000), shards=(8, 8), history=False),
                        T('cyclic', 'CyclicTrace', (0, 0), shards=(8, 8), history=False, mode='3m'),
                        T('cyclic', 'CyclicTrace', (0, 0), shards=(8, 8), history=False, mode=dict(quick='2m', thorough='4')),
                        MC(None, 'CyclicMC', dict(SIZE=dict(quick=2, thorough=3)))]),
    'P21': dict(level='model_checking', race=True,
                rule='Readers.tla: processes that hash, compare and derive from shared nodes in steps; TLC checks for every interleaving '
                     'that nothing frozen changes and that each gets what it would get alone. Goroutines that read the same '
                     'values and types are run under the race detector, what each of them got and what it gets alone is recorded and '
                     'ReadersTrace.tla compares it, equality and instances also with Types.tla. An evaluation is a group of '
                     'goroutines.',
                stages=[
                    T('readers', 'ReadersTrace', (300, 4000), shards=(24, 64), history=False),
                    MC(None, 'ReadersMC', dict(SIZE=dict(quick=3, thorough=4))),
                ]),
    'P22': dict(level='model_checking',
                rule='Binary.tla: binaries, go slices and texts as a state machine. (1) every sequence of operations up to a bound is '
                     'enumerated by TLC (BinaryMC) and performed on real binaries; (2) random longer sequences are recorded and '
                     'validated (BinaryTrace), the whole heap is compared after each. An evaluation is one operation.',
                stages=[
                    T('binary', 'BinaryTrace', (15000, 150000), shards=(4, 8)),
                    MC('replaybinary', 'BinaryMC', dict(DEPTH=dict(quick=5, thorough=6)), heap='6g'),
                ]),
    'P24': dict(level='model_checking',
                rule='Cost.tla: collections with a length and room for elements, and what an operation on them may allocate. The bytes '
                     'that operations of random histories (in which few operations follow upon each other often) allocate are recorded '
                     'and CostTrace.tla compares them with what may be allocated. An evaluation is one operation.',
                stages=[T('cost', 'CostTrace', (12000, 120000), shards=(6, 8)), MC(None, 'CostMC', {})]),
    'P25': types('Pcore.tla defines the lexer, the grammar and what each text denotes, in the terms of Grammar.tla. (1) All sequences of '
                 'tokens up to a length from nine alphabets and (2) random valid texts, texts with some damage, and random tokens and '
                 'characters are parsed; TLC computes for each whether it is accepted, what it denotes and where an error is.',
                 T('pcore', 'PcoreTrace', (30000, 250000), shards=(7, 8), history=False),
                 T('pcore', 'PcoreTrace', (0, 0), shards=(8, 8), history=False, mode='3'),
                 T('pcore', 'PcoreTrace', (0, 0), shards=(8, 8), history=False, mode=dict(quick='4', thorough='5'))),
    'P28': types('Indent.tla: families of indenters that share a buffer, and string readers, as state machines. Histories of calls on real '
                 'ones, among them that values which may contain themselves are appended, are recorded. TLC compares the text, its length and '
                 'all levels after each call, and what is read and where.',
                 T('indent', 'IndentTrace', (40000, 400000), shards=(4, 8))),
    'P27': types('For random types, half of them made by constructors that are given the arguments in other forms, what the accessors of the type '
                 'say (sizes, ranges, operators, operands, elements, exact value, go type) is recorded together with its typed and general '
                 'verdicts for close values. TLC compares with the definition of the type and with the denotation In of Types.tla.',
                 T('facts', 'TypesTrace', (30000, 250000), shards=(7, 8), history=False)),
    'P26': dict(level='model_checking', race=True,
                rule='Named.tla: the registry of named types, equality, assignability and instances of named, parameterized and exact types, '
                     'what New makes, and what printed types and streamed values are read as. (1) Histories of registrations, removals and '
                     'uses, (2) all pairs of kinds of definitions, and (3) operations on the registry from several goroutines at the same '
                     'time are performed on the code; TLC computes each outcome, and searches for an order that explains (3). '
                     'An evaluation is one observation with all of its pairs.',
                stages=[T('named', 'NamedTrace', (35000, 300000), shards=(6, 8)),
                        T('named', 'NamedTrace', (0, 0), shards=(4, 4), mode='pairs'),
                        T('namedrace', 'NamedTrace', (20000, 120000), shards=(3, 6))]),
    'P23': types('GoFunc.tla says, on top of GoValues.tla, what a function must get when it is called through its wrapping, what its results '
                 'become, when a call is refused, what type a go function has, and when function types are equal, assignable or have '
                 'an instance. Calls of functions of random signatures (made with reflection) with arguments that do or do not fit, '
                 'and pairs of function types are recorded and compared.',
                 T('gofunc', 'FuncTrace', (40000, 400000), shards=(7, 8), history=False)),
}
