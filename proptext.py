"""The text of the properties."""
NOT_APPLICABLE = {}
TEXT = []


def P(id, title, statement, over, text, why, files, mechanism, **kw):
    TEXT.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                     mechanism=mechanism, **kw))


P('P01', 'A Map is an insertion ordered dictionary keyed by value equality',
  'Whatever sequence of operations created it, a Map holds each key (by value equality) once, in the order of first '
  'insertion: replacing a value keeps the position, removing a key keeps the order of the others, and a missing key '
  'yields no value. Get, ContainsKey, Len, all iterations, Find/Any/All and the maps and arrays derived from it (With, '
  'Without, WithoutAll, Merge, Map, Copy, Keys, Values, ToMap, ToMapFromEntries) agree with that dictionary for every '
  'key type, also when hashes collide and when the table grows. A map created from a go map is ordered by its keys.',
  ['histories', 'inputs'], 'every sequence of map operations, every set of keys including colliding hashes',
  'The tests call each method a few times on maps with one to four string keys. They reach neither long histories, '
  'bucket collisions, removal from chains, growth, nor the combination of one derived map with later mutations.',
  ['internal/map.go', 'internal/array.go', 'vf/map.go'],
  [('hash table with a linked list of entries', 'internal/map.go hashMap.Put/Remove/resize'),
   ('derivation of new maps', 'internal/map.go hashMap.With/Without/Merge/Copy')])

P('P02', 'An Array is a sequence, and each of its operations is the sequence operation',
  'Whatever sequence of operations created it, an Array holds exactly the elements, in the order, that its history says: '
  'Add, AddAll, Insert, Set, Remove, Pop, With, Slice, Select, Reject, Map, Flatten, Unique, Sort (ascending on the natural '
  'order and stable), Reduce, ToMap and the others yield what the corresponding operation on a finite sequence yields. '
  'ContainsAll and SameValues decide multiset inclusion and equality, IndexOf finds the first equal element, and an '
  'index outside of the sequence is never silently accepted.',
  ['histories', 'inputs'], 'every sequence of array operations with any arguments',
  'The tests sample one or two short arrays per method.',
  ['internal/array.go', 'vf/array.go'], [('slice manipulation', 'internal/array.go')])

P('P03', 'Operations never leak changes into collections they should not change',
  'An operation that is not a mutator leaves its receiver and its arguments as they were, and a mutator changes nothing but '
  'its receiver (Freeze also freezes what the receiver contains). A collection returned by an operation is either one of '
  'the operands or shares no storage with them, so that no later mutation of one is visible in the other. A thawed copy '
  'shares no mutable collection with its original at any depth.',
  ['histories'], 'every sequence of operations over any number of collections that refer to each other',
  'Aliasing only shows after a second and third operation on another object. Tests look at the returned object only.',
  ['internal/array.go', 'internal/map.go'], [('copying of slices, tables and entries', 'internal/array.go, internal/map.go')])

P('P04', 'Frozen is deep, permanent and safe to rely on',
  'Once frozen, a collection and everything reachable from it (map keys included) never changes again: each mutator on it '
  'panics and leaves everything as it was. Freeze, FrozenCopy and every operation that derives a collection from a frozen '
  'one yield deeply frozen results, ThawedCopy yields a deeply mutable copy, and neither copy affects the original. Map keys '
  'are always frozen, whatever was passed in.',
  ['histories'], 'every sequence of operations after a freeze, on the object and on everything derived from it',
  'Tests assert one panic per mutator on a flat collection; they never look at nested content or derived collections.',
  ['internal/array.go', 'internal/map.go', 'internal/value.go'],
  [('frozen flag check in each mutator', 'internal/array.go, internal/map.go'), ('frozenCopy of keys and added values', 'internal/map.go')])

P('P05', 'Equality is an equivalence relation and agrees with hashing',
  'For all values and types, Equals is reflexive (except for a float that is not a number), symmetric and transitive, values of different kinds are never equal, and '
  'collections are equal exactly when they have equal content (arrays in order, maps regardless of order). Equal values and '
  'equal types have the same HashCode, whatever way they were created, so a key is found in a map whichever equal value is '
  'used to look it up.',
  ['inputs'], 'every pair and triple of values and types, each created in different ways',
  'The tests compare a handful of pairs; hash codes of pairs that are equal but built differently are hardly compared.',
  ['internal/compare.go', 'internal/map.go', 'internal/array.go', 'internal/not.go', 'internal/ternary.go'],
  [('Equals and HashCode of each value', 'internal/*.go')])

P('P06', 'CompareTo is a consistent order and Sort obeys it',
  'For all values that are comparable with each other, CompareTo is antisymmetric and transitive, agrees with numeric order '
  'for numbers of any size (integers and floats compared exactly), byte order for strings and binaries, false before true for booleans, '
  'lexicographic order for arrays, and nil before everything that has an order; ordered values of the same kind compare as 0 exactly '
  'when they are equal. Pairs without an order (NaN included) report so instead of yielding a result. Sort is stable.',
  ['inputs'], 'every pair and triple of values, including extreme numbers',
  'Tests compare small numbers only and never look at triples or at the boundaries of the number ranges.',
  ['internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/boolean.go', 'internal/nil.go'],
  [('CompareTo', 'internal/*.go')])

P('P07', 'A type accepts exactly the values that its definition describes',
  'For every type that can be built (ranges, sized strings, patterns, enums, exact values, arrays, maps, tuples, structs, '
  'and/or/one-of/not, binary, type of type, aliases, functions) and every value, Instance tells whether the value is in the set that the '
  'definition of the type denotes. Optional struct entries, additional entries, variadic tuples, size bounds and inclusive '
  'or exclusive range ends all count.',
  ['inputs'], 'every type of any nesting depth and every value',
  'Tests check about two values per type, nesting is hardly touched.',
  ['internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go',
   'internal/not.go', 'internal/ternary.go'], [('Instance', 'internal/*.go')])

P('P08', 'Assignability implies instance inclusion',
  'If type A is assignable from type B then each instance of B is an instance of A, for every A and B that can be built. '
  'Assignability is reflexive, any is assignable from everything, A is assignable from the exact type of '
  'each of its instances, and unions, ranges, sizes and element types behave monotonically.',
  ['inputs'], 'every pair and triple of types and every value',
  'Tests sample assignability pairs by hand; unsoundness shows for combinations (not with ranges, unions of tuples, ...).',
  ['internal/not.go', 'internal/ternary.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go'],
  [('Assignable and the CheckAssignableTo double dispatch', 'internal/*.go')])

P('P09', 'The type of a value is exact and its generic form is wider',
  'The type of a frozen or scalar value accepts that value and every value equal to it, and nothing else (the type of a '
  'Sensitive value is the sensitive type of the type of what it holds). The generic form of '
  'a type accepts everything that the type accepts, is assignable from it, and is its own generic form.',
  ['inputs'], 'every value',
  'Only a few values are probed.', ['internal/type.go', 'internal/value.go', 'typ/utils.go'],
  [('Type() of each value', 'internal/*.go'), ('Generic', 'internal/*.go')])

P('P10', 'A type expression survives being printed and parsed',
  'For every type that can be expressed in the type language, parsing the string form of the type yields an equal type, and '
  'the string form of that type is the same string. That holds for every content of string literals, patterns, numbers and '
  'nested types, and for every combination of operators.',
  ['inputs'], 'every type that has a form in the type language',
  'Tests print or parse some types, and rarely do both. Escapes, precedence and sizes are not combined.',
  ['internal/string.go', 'parser/parser.go', 'parser/lexer.go', 'stringer/typestring.go', 'util/indenter.go'],
  [('type string builder', 'stringer'), ('parser', 'parser')])

P('P11', 'The type language has one grammar, and the parser decides it for every input',
  'Every text is either accepted, and then denotes the value that the grammar says (operators |, ^, & and ! bind in that order '
  'from weakest to strongest, lists and parameters nest properly), or refused with an error that tells the position. No text makes '
  'the parser crash, hang, or ignore a part of its input.',
  ['inputs'], 'every token sequence and every text',
  'Tests parse some dozens of handwritten expressions.', ['parser/parser.go', 'parser/lexer.go'],
  [('recursive descent parser', 'parser/parser.go'), ('lexer', 'parser/lexer.go')])

P('P12', 'Data survives JSON',
  'Every value that consists of nil, booleans, integers, finite floats, valid strings, arrays and string keyed maps is equal '
  'to itself, with the same kinds of numbers and the same order of entries, after it has been written as JSON and read back, and rich '
  'values (types, binary, time, sensitive, non string keys) survive when rich data is enabled. The JSON that is written is valid JSON.',
  ['inputs'], 'every data value',
  'Tests write and read a few samples.', ['streamer/json.go', 'streamer/streamer.go', 'streamer/decoder.go'],
  [('JSON encoder and decoder', 'streamer'), ('pcore style dialect for rich values', 'streamer/dialect.go')])

P('P13', 'The stream of a value describes that value exactly and says each thing once',
  'For every value, every dedup level and every consumer capability, the stream of events that is emitted is well formed, a '
  'reference always denotes an earlier emitted value that is equal to the one it stands for, and a decoder that follows the '
  'protocol rebuilds an equal value. The dedup level bounds what is replaced by references: nothing, '
  'everything but map keys, or everything that the consumer allows, and never anything shorter than the consumer\'s threshold.',
  ['inputs', 'configurations'], 'every value with any amount of sharing, times all options',
  'Tests stream a few values with few option combinations.', ['streamer/streamer.go', 'streamer/decoder.go', 'streamer/datacollector.go'],
  [('dedup by identity', 'streamer/streamer.go'), ('reference counting', 'streamer/collector')])

P('P14', 'A loader is a consistent namespace that loads each name once',
  'For every sequence and interleaving of calls on a hierarchy of loaders, what a name resolves to is first what the parent '
  'provides and then what the loader itself provides, an entry never changes once it has been loaded, and a name that is not found stays not found. '
  'The finder of a name is consulted only when the name is not loaded, concurrent callers all see the same value for a name, and the same '
  'child namespace. What one call of a finder yields is added entirely or not at all.',
  ['schedules', 'histories'], 'every interleaving of concurrent loads and every hierarchy',
  'Tests load a handful of names sequentially.', ['loader/loader.go'], [('mutex protected entries', 'loader/loader.go')])

P('P15', 'Type aliases are a consistent two way association',
  'In every sequence and interleaving of additions and lookups, an alias map maps a name to the type it was last given, the reverse lookup of '
  'that type yields that name, adding through a collector leaves the original map unchanged until it is replaced atomically, and '
  'concurrent additions to the default aliases are all retained. A recursive alias denotes the same type wherever it is used and never causes endless '
  'recursion.',
  ['schedules', 'histories'], 'every sequence and interleaving of additions and lookups',
  'Tests add a few aliases sequentially.', ['internal/alias.go', 'tf/type.go'],
  [('copy on write of the alias map under a lock', 'internal/alias.go')])

P('P16', 'Values cross the border to go and back unchanged',
  'A go value that is converted to a dgo value and back to the same go type represents the same value (a nil slice or map may become an '
  'empty one, a pointer to a nil pointer a nil pointer, and what an interface holds may become another go type that represents the same '
  'value), for all integer and float sizes, strings, slices, maps, pointers, structs and nestings of them. An assignment to a go type '
  'that cannot represent the value (an integer out of its range, a float that is too large, another kind of value) panics instead of '
  'altering it; rounding of a float to float32 is allowed. A value does not change when the go value that it was made of, or a go value '
  'that was made of it, is overwritten by the go program (wrapped natives and structs, times, and slices of dgo values excepted). A go struct that is wrapped as a Map behaves as the Map that has its fields '
  'as entries: reads and writes are those of the go struct, a field refuses what it cannot hold, freezing and copying detach the view '
  'from the go struct deeply (nothing that is done to the go struct or to what it refers to, or to go structs that are obtained from a '
  'frozen view, alters it), and Maps that are made of a view have exactly its entries and the changes asked for.',
  ['inputs', 'histories'], 'every go value and every sequence of operations on a wrapped struct',
  'Tests convert one value per kind, boundaries of the number ranges are not reached, and no history of operations on a shared struct.',
  ['internal/native.go', 'internal/struct.go', 'internal/value.go', 'internal/integer.go'], [('reflection', 'internal/value.go, internal/struct.go')])

P('P17', 'A sensitive value is never revealed',
  'No string form, formatted form, type string form, error text or validation report of a value that contains a Sensitive, or of an operation '
  'that refuses it, reveals the wrapped value, however deep it is nested (it may tell what kind of value it is). Streaming without rich data refuses '
  'a Sensitive. Unwrap yields exactly the wrapped value, and freezing, copying, equality and hashing of the '
  'Sensitive behave as those of the wrapped value, while a Sensitive never equals an unwrapped value.',
  ['inputs'], 'every value and every nesting', 'Tests print one sensitive.', ['internal/sensitive.go', 'streamer/streamer.go', 'internal/type.go'],
  [('redacted string form', 'internal/sensitive.go')])

P('P18', 'New yields an instance of the type or refuses',
  'For every type and every argument, creating a new instance of the type yields a value that is an instance of that type or panics '
  'with an error. A value that already is an instance is yielded unchanged (equal), and text is converted to numbers, booleans, times and '
  'binaries as the type prescribes.',
  ['inputs'], 'every type and every argument', 'Tests create one or two values per type.', ['internal/*.go', 'vf/value.go'],
  [('New of each type', 'internal/*.go')])

P('P19', 'Struct validation agrees with the struct type',
  'For every struct type and every map, validation reports no error exactly when the map is an instance of the type, and each reported error '
  'names an entry that is missing, of the wrong type, or unknown; each such entry is reported. The verbose validation gives the same verdict. The '
  'entries that a struct type declares are found by their keys, and say whether they are required and of what type they are.',
  ['inputs'], 'every struct type and every map', 'Tests validate a few maps.', ['internal/mapstruct.go', 'internal/exact.go'],
  [('Validate and ValidateVerbose', 'internal/mapstruct.go')])

P('P20', 'Self referencing values and types never cause endless recursion',
  'Arrays, maps and sensitives that contain themselves, directly or through each other, and types that refer to themselves, can be compared for '
  'equality and order, hashed, searched for, used as keys, printed, frozen, copied, extended, asked for their types and checked against types: each '
  'such operation ends. Two collections are equal if no path of keys and indices tells them apart, however they are made up of shared parts; the order '
  'is antisymmetric and agrees with that; a copy is equal to the original, has the same hash code and is found with it, prints the same, is frozen or '
  'mutable throughout, and shares nothing that can be changed with the original, which stays as it was; what is made by adding to a copy has the '
  'elements that were there and those that were added. A collection is an instance of a recursive type unless some path in it leads to '
  'something that the type does not admit.',
  ['inputs'], 'every graph of collections and types', 'Tests have a few self referencing arrays and maps.',
  ['internal/array.go', 'internal/map.go', 'internal/compare.go', 'internal/sensitive.go', 'internal/exact.go', 'util/slice.go', 'stringer/typestring.go'],
  [('recursion guards', 'internal/compare.go'), ('copies', 'internal/map.go copyValue')])

P('P21', 'Frozen values and types can be shared between goroutines',
  'Any number of goroutines can, at the same time and without data races, read, hash, compare, sort, print, stream, convert, call and derive new values '
  'from the same frozen values, check values against the same types and compare, print and generalise those types, and parse, register and look up '
  'named types and aliases. Each gets what it would get if it were alone, what it derives is its own, and what is frozen does not change.',
  ['schedules'], 'every interleaving of readers', 'Tests are single threaded.', ['internal/*.go', 'tf/*.go', 'streamer/*.go', 'stringer/*.go'],
  [('cached hash codes', 'internal/string.go'), ('types that are made when first needed', 'internal/mapstruct.go'),
   ('registries', 'internal/alias.go, internal/named.go')])

P('P22', 'Binary values are immutable byte sequences once frozen',
  'A Binary holds exactly the bytes it was created from, its text form in each encoding decodes to the same bytes, and it equals exactly the binaries '
  'with the same bytes. A frozen Binary never changes through the go slice it was created from or handed out, or through a copy.',
  ['inputs', 'histories'], 'every byte sequence and every sequence of operations', 'Tests use a few short binaries.',
  ['internal/binary.go'], [('copying of bytes', 'internal/binary.go')])

P('P23', 'A wrapped go function behaves as its type says',
  'A go function that is wrapped as a dgo Function is called once, with exactly the given arguments converted to the go types of its '
  'parameters (variadic ones and functions as arguments included), and yields its results converted back, a nil that is not a dgo value as nil. A call with the wrong number '
  'of arguments, or with an argument that the go type of its parameter cannot represent, is refused and does not call the function. Its '
  'type has the types of its parameters and results. Function types are equal, both ways and with equal hash codes, when their '
  'parameters and results are equal, however they were made. One is assignable to another, and functions of it are '
  'instances of the other, when both are variadic or neither is, and the tuples of parameters and of results are assignable; the type of all functions '
  'accepts every function. Arguments that are an instance of the tuple of parameters are those that have the types of the parameters.',
  ['inputs'], 'every function signature and argument list', 'Tests wrap a few functions.', ['internal/function.go', 'internal/type.go', 'internal/value.go'],
  [('reflection calls', 'internal/function.go')])

P('P24', 'Operations cost what the collections hold, not what has been done before',
  'The memory that an operation on an Array, a Map or an alias map allocates is bounded by a constant and a constant for each element of the collections '
  'it is given and makes (or has held), however many operations these have been derived by. Chains of With, Without, Merge, PutAll, '
  'copies and added aliases do not exhaust the memory.',
  ['histories'], 'every sequence of operations', 'Tests perform one or two operations on a collection.', ['internal/map.go', 'internal/array.go', 'internal/alias.go'],
  [('hash tables that grow', 'internal/map.go')])

P('P25', 'The Pcore language has one grammar, and its parser decides it for each text',
  'Every text is either accepted by the Pcore parser (streamer/pcore), and then yields exactly the type or value that Pcore says: '
  'each named type with its parameters and defaults (sizes, bounds, optional entries, variadic tuples, blocks of callables), entries, '
  'hashes, arrays, calls and type aliases. Or it is refused with an error that tells the position. No text makes the parser crash, hang, '
  'ignore a part of its input, or leave an unresolved alias or call in what it yields.',
  ['inputs'], 'every token sequence and every text',
  'Tests parse some dozens of handwritten expressions.', ['streamer/pcore/parser.go', 'streamer/pcore/lexer.go', 'internal/alias.go'],
  [('Pcore parser', 'streamer/pcore/parser.go'), ('Pcore lexer', 'streamer/pcore/lexer.go'), ('aliases and deferred calls', 'internal/alias.go')])

P('P26', 'Types that a program defines by name behave like the types that are built in',
  'A name denotes the type that was first registered under it until that is removed: to register it again is refused, whichever goroutine '
  'does it, and lookups, the parser, the decoder and lookup by Go type agree. Named, parameterized and exact types of named values are equal, '
  'with equal hashes, exactly when name, parameters and values are. What is assignable or an instance follows from the checker, else '
  'from the Go type or interface, else from the name, and agrees: whatever is an instance of a type is one of each type that it is assignable to. '
  'Parameters replace those that a type already has. New yields only what the type and its checker accept. The '
  'string form of the exact type of a value, also as an operand, element or argument of another, denotes that type, and a value that is streamed with rich data '
  'is read back equal, whatever argument it was made from.',
  ['inputs', 'histories', 'schedules'], 'every set of definitions, argument, history and schedule of registrations',
  'Tests define one or two types with integer arguments.', ['internal/named.go', 'stringer/typestring.go', 'streamer/streamer.go', 'streamer/decoder.go', 'parser/parser.go'],
  [('named types and registry', 'internal/named.go'), ('string form', 'stringer/typestring.go'), ('streaming', 'streamer/streamer.go'), ('reading', 'streamer/decoder.go')])

P('P27', 'What a type tells about itself agrees with the values that it accepts',
  'Limits of sizes and ranges that a type reports (Min, Max, Inclusive, Unbounded) are those that it was defined with, and no instance is outside of them. '
  'Operator, Operand, Operands, Element, ElementType, KeyType, ValueType and ExactValue are what it is made of; an exact type has no instance that differs '
  'from its exact value. An IsInstance that takes a Go value agrees with Instance. The Go type that a type corresponds to can hold each of its instances '
  'without a change, and the type of that Go type accepts them all. Constructors of types give the same type for each form '
  'that arguments can be given in: limits in any order, of any kind of integer or omitted, values for their types, maps for struct types.',
  ['inputs'], 'every type, made in every way, and every value',
  'Tests read some accessors of a few types.', ['internal/*.go', 'tf/*.go'],
  [('ranges', 'internal/float.go'), ('sizes', 'internal/string.go'), ('elements', 'internal/array.go'), ('keys and values', 'internal/mapstruct.go'), ('operators', 'internal/ternary.go'), ('go types', 'internal/value.go')])

P('P28', 'An indenter yields what was appended to it and a reader what is in its string',
  'All indenters that are made from one by Indent share its text; each has a level. The text is what was appended by any of them since the last Reset, with newlines that NewLine '
  'and AppendIndented make followed by as many indents as the level of the one that made it, and without blanks at the end of lines; without an indent string there are no '
  'such newlines. To ask for the text or its length changes neither. A value is appended in full, each part of a collection on a line at the level of its depth, and where '
  'recursion is protected a collection within itself is appended as a reference, otherwise exactly as it would be without protection. A reader yields each rune once, then the end; '
  'looking ahead moves nothing, the position, line and column are those of what is next, and what is not valid text or a NUL is refused and not passed over.',
  ['inputs', 'histories'], 'every history of calls, text, and value, also those that contain themselves',
  'Tests make a few calls on one indenter and read some short strings.', ['util/indenter.go', 'util/erpindenter.go', 'util/reader.go', 'internal/array.go', 'internal/map.go'],
  [('indenters', 'util/indenter.go'), ('recursion', 'util/erpindenter.go'), ('readers', 'util/reader.go'), ('values', 'internal/map.go')])
