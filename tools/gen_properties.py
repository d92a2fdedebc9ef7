"""Writes /verif/properties.jsonl (kept as code so that edits stay consistent)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


S = 'structured/serializers/'
H = 'structured/hint_types/'

prop('C01', 'Round trip: unpacking what was packed gives back an equal object',
     'For every class built from the documented hint types and every object whose field values those hints can represent, '
     'packing the object and unpacking the bytes again yields an equal object whose field values have the documented Python types, '
     'through every pairing of pack/pack_into/pack_write with create_unpack/create_unpack_from/create_unpack_read and the in-place unpack/unpack_from/unpack_read. '
     'Values a hint cannot represent exactly are outside: NaN, bytes of the wrong length for a fixed-length char/pascal, terminated bytes containing the terminator, text ending in NUL.',
     ['inputs', 'programs'], 'all field values (within stated length bounds) x all shapes of class definitions in the bounded shape grammar x byte orders',
     'Tests pack a few dozen hand-picked objects; whole combinations (an empty length-prefixed string, a list of integers followed by another field, a tuple with a variable-length member) never run.',
     ['structured/structured.py', S + 'api.py', S + 'structs.py', S + 'arrays.py', S + 'strings.py', S + 'tuples.py', S + 'unions.py', S + 'conditional.py', S + 'structured.py', S + 'self.py'],
     [('CompoundSerializer chaining', S + 'api.py'), ('pack/unpack pairs of every Serializer', S), ('Structured.pack*/unpack*/create_unpack*', 'structured/structured.py')],
     observe=['Structured.pack/pack_into/pack_write', 'Structured.unpack*/create_unpack*'])

prop('C02', 'Packed bytes are exactly the documented layout',
     'The bytes produced by packing are exactly the documented layout: each maximal run of consecutive basic fields is laid out as one struct format in the class\'s byte order (alignment padding only between its members, and zero), '
     'and every other field follows immediately without padding: a length prefix then its data, an array header then its items, the raw bytes of a string, the fields of a nested object, the selected union member. '
     'Named pad fields contribute that many zero bytes wherever they appear.',
     ['inputs', 'programs'], 'all field values within bounds x all class shapes in the bounded shape grammar x byte orders',
     'Tests compare a handful of layouts with struct.pack; alignment between a count and its items, empty sequences, and runs interrupted by complex fields are not sampled, and a layout error that is symmetric in pack and unpack is invisible to round-trip tests.',
     [S + 'structs.py', S + 'api.py', S + 'arrays.py', S + 'strings.py', H + 'basic_types.py', 'structured/structured.py'],
     [('fold_overlaps / StructSerializer.__add__/__mul__/__matmul__', S + 'structs.py'), ('CompoundSerializer._add_impl', S + 'api.py'), ('Structured.__init_subclass__ summing serializers', 'structured/structured.py')],
     observe=['Structured.pack'])

prop('C03', 'The three packing methods agree and pack_into stays in bounds',
     'For every object, pack(), pack_into(buffer, offset) and pack_write(stream) either all raise or all produce the same bytes. '
     'pack_into changes exactly the bytes [offset, offset+size) of the buffer, never changes the buffer\'s length or any other byte, and raises when the data does not fit (a negative offset counts from the end of the buffer, as for struct); pack_write appends exactly those bytes at the stream\'s current position.',
     ['inputs', 'programs'], 'all values within bounds x class shapes x buffer lengths, offsets and prior contents',
     'Tests only pack into a buffer of exactly the right size at offset 0; oversized/undersized buffers and non-zero offsets are never used.',
     [S + 'api.py', S + 'arrays.py', S + 'strings.py', S + 'structs.py', S + 'unions.py', S + 'tuples.py', S + 'structured.py', 'structured/structured.py'],
     [('pack/pack_into/pack_write triplets', S), ('CompoundSerializer._iter_packers offset arithmetic', S + 'api.py')],
     observe=['Structured.pack', 'Structured.pack_into', 'Structured.pack_write'])

prop('C04', 'The unpacking methods agree on every input',
     'For any input bytes whatsoever, unpacking them from a bytes-like object, from a buffer at an offset, or from a binary stream - creating a new object or updating an existing one - either fails in every case or yields equal objects with equal value types in every case. '
     'The kind of buffer (bytes, bytearray, memoryview) makes no difference to the values produced.',
     ['inputs', 'programs'], 'every input byte string up to the stated length x class shapes x entry points x buffer kinds',
     'Tests feed well-formed data produced by pack; malformed and truncated inputs, bytearray/memoryview inputs and in-place unpacking of complex shapes are essentially untested.',
     [S + 'api.py', S + 'arrays.py', S + 'strings.py', S + 'structs.py', S + 'unions.py', S + 'self.py', S + 'tuples.py', 'structured/structured.py'],
     [('unpack/unpack_from/unpack_read triplets', S), ('Structured.unpack*/create_unpack*', 'structured/structured.py')],
     observe=['Structured.unpack*', 'Structured.create_unpack*'])

prop('C05', 'The reported size is the number of bytes just packed or unpacked',
     'After any successful pack or unpack operation on an object or class, the class serializer\'s size (and, for an individual serializer used directly, its own size) equals the number of bytes that operation wrote or consumed, whatever the method, offset, or nesting.',
     ['inputs', 'programs'], 'all values within bounds x shapes x all entry points and offsets',
     'Tests check size at offset 0 only, for a few shapes; offsets, nested variable-size members and recursion are not covered.',
     [S + 'api.py', S + 'arrays.py', S + 'strings.py', S + 'unions.py', S + 'structured.py', S + 'tuples.py', S + 'conditional.py'],
     [('size bookkeeping in every Serializer', S), ('_SpecializedCompoundSerializer updating its origin', S + 'api.py')],
     state=[('size', 'bytes handled by the most recent operation; shared between classes', S + 'api.py')],
     observe=['Structured.serializer.size'])

prop('C06', 'Unpacking depends only on the object\'s own bytes',
     'Unpacking an object embedded at any offset of a larger buffer, or at any position of a stream, with arbitrary bytes before and after it, gives the same object as unpacking its exact bytes (shapes ending in a read-to-the-end field see everything from the offset onward; a negative offset counts from the end of the buffer, as for struct, and one before its start is refused). '
     'After unpacking from a stream the stream is positioned exactly behind the consumed bytes.',
     ['inputs', 'programs'], 'all values, all prefix/suffix contents and offsets within bounds x class shapes',
     'Only one test (null-terminated string, offset 0) has trailing data, none has leading data or checks the stream position.',
     [S + 'api.py', S + 'strings.py', S + 'arrays.py', S + 'unions.py', 'structured/structured.py'],
     [('offset arithmetic in unpack_from', S), ('seek/rewind in unpack_read', S + 'strings.py'), ('LookaheadDecider rewind', S + 'unions.py')],
     observe=['Structured.create_unpack', 'create_unpack_from', 'create_unpack_read'])

prop('C07', 'Truncated input is always rejected',
     'If a byte string is a proper prefix of the packed form of an object of a class that has no read-to-the-end field, then every unpacking method raises an exception on it; no unpacking method ever returns an object built from fewer bytes than its fields occupy.',
     ['inputs', 'programs'], 'every packed object within bounds x every truncation point x class shapes x entry points',
     'Tests contain three truncated inputs, all for terminated strings.',
     [S + 'strings.py', S + 'structs.py', S + 'arrays.py', S + 'api.py', S + 'unions.py'],
     [('struct length checks', S + 'structs.py'), ('length-prefixed string reads', S + 'strings.py'), ('unterminated check', S + 'strings.py')],
     observe=['Structured.create_unpack', 'create_unpack_from', 'create_unpack_read'])

prop('C08', 'A class\'s byte order governs every number it serializes',
     'With byte_order=X every multi-byte number belonging to the class is encoded and decoded in order X, wherever it occurs: plain fields, length prefixes of char and unicode strings, array counts, data sizes and items, tuple members, union members and look-ahead values, conditional fields, custom types. '
     'obj.with_byte_order(Y) leaves obj unchanged and returns an equal-valued object that packs exactly like the same class declared with Y; a field whose type is another Structured class (or Self, whose objects are handled by the class itself) keeps that class\'s own byte order, and the one- or two-byte .NET length mark does not depend on byte order.',
     ['inputs', 'programs', 'configurations'], 'all values within bounds x shapes x all pairs of byte orders',
     'Tests use a non-default byte order for plain struct fields and for one conditional class only, and native order coincides with little endian so most errors are invisible.',
     [S + 'structs.py', S + 'api.py', S + 'arrays.py', S + 'strings.py', S + 'conditional.py', S + 'tuples.py', S + 'unions.py', 'structured/structured.py'],
     [('with_byte_order of every Serializer', S), ('Structured.with_byte_order, __init_subclass__', 'structured/structured.py')],
     observe=['Structured.pack', 'Structured.with_byte_order'])

prop('C09', 'Unrepresentable values are rejected, never silently altered',
     'Packing raises an exception, rather than writing truncated or wrapped data, when an integer is outside its type\'s range, when a byte string, text or list is longer than its length prefix can express (32767 bytes for .NET strings), when an encoded array data size exceeds its size field, or when a fixed-length array gets a different number of items. '
     'At the limits themselves packing succeeds and round-trips.',
     ['inputs'], 'every integer and every string/list length around and beyond each limit, for every method',
     'Tests probe three array lengths and one string length; the boundary of each of the prefix widths is never touched.',
     [S + 'structs.py', S + 'arrays.py', S + 'strings.py'],
     [('struct range checks', S + 'structs.py'), ('length checks', S + 'arrays.py'), ('NETCharSerializer._st_count_data', S + 'strings.py')],
     observe=['Structured.pack', 'pack_into', 'pack_write'])

prop('C10', 'Array headers describe exactly the items that follow',
     'Packing array[Header[...], T] writes the true item count (if dynamic) and then the true byte length of the packed items (if a size field is declared), in the declared integer types, and exactly that many items; unpacking reads exactly as many items as the count says. '
     'When a size field is declared, for any item type, unpacking raises ValueError whenever the stored size differs from the bytes the items occupy, and accepts it otherwise.',
     ['inputs', 'programs'], 'all item values, counts and stored header values within bounds x header forms x item types',
     'The size field is tested with one Structured item type and one wrong value (0); header forms combined with basic item types are untested.',
     [S + 'arrays.py', H + 'arrays.py'],
     [('ArraySerializer._header_pack_values/_header_unpack_values/_check_data_size', S + 'arrays.py'), ('array.__class_getitem__ dispatch', H + 'arrays.py')],
     observe=['Structured.pack', 'Structured.create_unpack*'])

prop('C11', 'Unions serialize exactly the member their decider selects',
     'A union field packs and unpacks exactly as the member type mapped to the decider\'s result would, using the default when the result is unmapped and raising ValueError when there is no default. '
     'A LookbackDecider sees every field that precedes the union; a LookaheadDecider decides unpacking by the value its read-ahead type would unpack at that point and consumes nothing for it, and decides packing by its write decider.',
     ['inputs', 'programs'], 'all decider values (mapped and unmapped), member values and input bytes x member types x entry points',
     'Five examples with constant or two-valued deciders; unmapped values on unpacking, defaults, members of different sizes followed by other fields, and streams in mid-position are untested.',
     [S + 'unions.py'],
     [('AUnion.get_serializer', S + 'unions.py'), ('LookbackDecider.decide', S + 'unions.py'), ('LookaheadDecider.unpack* rewind', S + 'unions.py')],
     state=[('_partial_object', 'object or proxy the decider inspects', S + 'unions.py')],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C12', 'A conditional field is present exactly when its condition is true',
     'A field with a Condition packs and unpacks exactly like the plain field when the condition evaluates to true on the values of the preceding fields; otherwise packing writes no bytes for it, unpacking consumes no bytes for it and sets it to the declared default. '
     'This holds for any serializable field type under the condition, pads included, and any placement of the field.',
     ['inputs', 'programs'], 'all values deciding the condition, all field values and inputs within bounds x wrapped types x placements',
     'One class with three versions and basic field types is tested; conditions over strings, arrays, nested objects or as the only field are not.',
     [S + 'conditional.py', H + 'condition.py'],
     [('ConditionalSerializer.prepack/preunpack', S + 'conditional.py'), ('SkipSerializer', S + 'conditional.py')],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C13', 'Combining serializers is concatenation',
     'Adding serializers gives a serializer that handles all of their values in order: for struct serializers of one byte order, exactly the concatenated struct format; otherwise the parts\' bytes one after another; value conversions stay attached to their own values. '
     'Multiplying a struct serializer by n equals adding n copies of it, `@ n` gives one field of n-fold count, 0 handles no values (a zero-length string under @), negative counts and mixed byte orders raise, and adding in any grouping gives the same behaviour.',
     ['inputs', 'programs'], 'all values x all sums and products of serializers with up to the stated number of format items and counts',
     'Tests check nine format strings, always with a single-item right operand.',
     [S + 'structs.py', S + 'api.py'],
     [('fold_overlaps', S + 'structs.py'), ('StructSerializer.__add__/__mul__/__matmul__', S + 'structs.py'), ('StructActionSerializer.__add__/__radd__/__mul__', S + 'structs.py'), ('CompoundSerializer.__add__/__radd__', S + 'api.py')],
     observe=['Serializer.pack/unpack', 'StructSerializer.format', 'num_values'])

prop('C14', 'Subclassing keeps field order, applies overrides, appends new fields',
     'A class serializes exactly its serializable hints and those of its base: base fields first in base order, a redefined field keeping its place with the new type, a field redefined as None (or any non-serializable hint) removed, new fields after them; class variables, unserializable hints and pads are not listed in attrs, and every pad counts. '
     'The subclass packs and unpacks exactly like a flat class with the resulting fields, and is refused with ValueError if its byte order differs from its base\'s without byte_order_mode=OVERRIDE, and with TypeError when it has two Structured bases.',
     ['inputs', 'programs', 'configurations'], 'all values x all base/derived definitions with up to the stated number of fields, overrides, removals, additions and byte orders',
     'Four derived classes are checked, by format string.',
     ['structured/structured.py'],
     [('Structured.__init_subclass__', 'structured/structured.py'), ('MetaDict / ispad', 'structured/structured.py'), ('get_structured_base', 'structured/structured.py')],
     observe=['attrs', 'Structured.pack/unpack'])

prop('C15', 'A specialized generic class behaves like the hand-written class',
     'Substituting concrete types for the type variables of a generic Structured class - by subclassing, through several generic levels in any parameter order, or by using it as a fully specialized hint inside another class - gives a class with the same attrs, initializer (the generated one, or the class\'s own with init=False), bytes and unpacked values as the class written out by hand with those types; type variables may be field types or stand inside tuple, array, Header, char, unicode and nested generic hints. '
     'Different specializations of one generic class never affect one another.',
     ['inputs', 'programs'], 'all values x type-argument choices x positions of type variables (plain, tuple, array item, array header, string length, nested generic) x inheritance chains',
     'Tests compare attrs and hints for a few specializations and unpack one of them.',
     ['structured/structured.py', 'structured/utils.py', S + 'structured.py', H + 'arrays.py', H + 'strings.py', H + 'tuples.py'],
     [('Structured._get_specialization_hints', 'structured/structured.py'), ('StructuredAlias.resolve', 'structured/utils.py'), ('StructuredSerializer._transform cache', S + 'structured.py')],
     state=[('_specializations', 'cache of specialized classes keyed by origin and arguments', S + 'structured.py')],
     observe=['attrs', 'Structured.pack/unpack'])

prop('C16', 'Nothing can follow a read-to-the-end field',
     'Defining a class fails with TypeError whenever a field that reads to the end of the input - directly, or inside a tuple, union (any member or the default), conditional field, text field or nested class - would be followed by another serialized field or pad, or be an array\'s item type; every class with such a field in last position is accepted. '
     'Such a field unpacks to all remaining bytes and packs to exactly its value.',
     ['inputs', 'programs'], 'all placements of a read-to-the-end field in shapes up to the stated size, all contents',
     'Tests check is_final() on four serializers and one rejected sum.',
     [S + 'api.py', S + 'strings.py', S + 'unions.py', S + 'tuples.py', S + 'conditional.py', S + 'structured.py', H + 'arrays.py'],
     [('is_final/get_final', S), ('Serializer.__add__ final check', S + 'api.py'), ('array item check', H + 'arrays.py')],
     observe=['class definition', 'Structured.pack/unpack'])

prop('C17', 'Self-nested objects serialize independently of their containers',
     'An object nested through a Self hint (directly in a union, in an array, tuple or conditional field, to any depth) packs to exactly the bytes it packs to on its own and unpacks to the object its own bytes unpack to, as an instance of the class being unpacked (including subclasses of the class that wrote the hint). '
     'Handling a nested object never changes how the fields, union choices, conditions or sizes of the enclosing object are handled afterwards.',
     ['inputs', 'programs'], 'all trees of nested objects and discriminator values within the stated depth and width x field arrangements x entry points',
     'Two trees are tested, none with a union or condition evaluated again after a nested object of the same class was processed.',
     [S + 'self.py', S + 'structured.py', S + 'arrays.py', S + 'unions.py', S + 'tuples.py', S + 'api.py', 'structured/structured.py'],
     [('SelfSerializer.prepack/preunpack', S + 'self.py'), ('_partial_object captured per serializer', S + 'unions.py'), ('_SpecializedCompoundSerializer', S + 'api.py')],
     state=[('_partial_object/_partial_obj', 'per-serializer shared pointer to the object being processed', S)],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C18', 'Operations are independent of what was done before',
     'The result of any pack or unpack operation is determined by its own arguments: it is the same after any earlier sequence of operations - successful or failing, on the same class, on other objects, or on other classes using the same hints or serializers - as on a freshly started interpreter, also when unpacking into an object that held other values. '
     'Operations never modify the object being packed or the input buffer, and an unpacked object is not changed by later changes to the buffer it was unpacked from.',
     ['histories', 'inputs', 'programs'], 'all histories of up to the stated number of operations with arbitrary arguments (including failing ones) x class shapes sharing serializers',
     'Serializers carry mutable state (size, the current object, cached hint types) shared between classes; tests never repeat an operation after a failure or interleave classes.',
     [S + 'api.py', S + 'arrays.py', S + 'unions.py', S + 'tuples.py', S + 'structs.py', H + 'strings.py', H + 'arrays.py', S + 'structured.py', 'structured/structured.py'],
     [('size/_partial_object reset on each call', S), ('functools.cache on hint factories', H), ('num_values edits on temporary serializers', S + 'arrays.py')],
     state=[('size', 'shared', S), ('_partial_object', 'shared', S), ('num_values', 'edited by the dynamic array packer', S + 'arrays.py')],
     observe=['Structured.pack*', 'Structured.unpack*'])

prop('C19', 'Construction, equality and text form follow the serialized fields',
     'The generated initializer takes exactly one argument per attribute in attrs, in that order, positionally or by keyword, stores each argument unchanged under its own name and then runs __post_init__ once; any other argument list raises TypeError. '
     'Two objects compare equal exactly when they are of the same class and all serialized attributes compare equal, != is its negation, and str()/repr() show the class name and each serialized attribute with its current value in order. '
     'A class declared with init=False and given a compatible initializer (of its own or by dataclass, the latter without pads) packs and unpacks like one with the generated initializer.',
     ['inputs', 'programs'], 'all attribute values and pairs of objects x class shapes (with pads, inheritance, removed fields)',
     'Five pairs of objects and one string are checked.',
     ['structured/structured.py'],
     [('gen_init', 'structured/structured.py'), ('Structured.__eq__/__str__/__repr__', 'structured/structured.py')],
     observe=['__init__', '__eq__', '__str__'])

prop('C20', 'unicode fields are the char field of the encoded text',
     'A unicode[n, codec] field packs to exactly what the corresponding char[n] field packs for the encoded text, and unpacks to the decoded text of what that char field unpacks with trailing NUL characters removed, for string codecs (utf8 by default) and for EncoderDecoder classes or instances, which are called once with the whole text or bytes. '
     'Lengths are those of the encoded bytes, and text or bytes that cannot be encoded or decoded raise.',
     ['inputs', 'programs'], 'all texts and all input bytes up to the stated length x length forms (fixed, prefixed, terminated, NET, to-the-end) x codecs',
     'Two texts are tested, with one codec.',
     [H + 'strings.py', S + 'strings.py'],
     [('UnicodeSerializer', S + 'strings.py'), ('unicode._create', H + 'strings.py')],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C21', 'Custom types convert each value exactly once and in place',
     'A SerializeAs field packs exactly like its basic type, and on unpacking its constructor or factory is applied exactly once, to the value of that field only, in every position: next to other basic or custom fields, inside arrays and tuples, under any byte order, through every unpacking method. '
     'Fields without a custom type are never converted.',
     ['inputs', 'programs'], 'all values x arrangements of basic and custom fields up to the stated number x containers x byte orders x entry points',
     'Three arrangements with a single custom class each are tested.',
     [H + 'serialize_as.py', S + 'structs.py', S + 'arrays.py'],
     [('StructActionSerializer actions', S + 'structs.py'), ('SerializeAs', H + 'serialize_as.py')],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C22', '.NET strings carry a correct one- or two-byte length mark',
     'A char[NET] value of length n < 128 is written as the single byte n followed by the data; for 128 <= n <= 32767 the first mark byte has its high bit set and holds the low seven bits of n and the second mark byte holds n // 128; longer values raise ValueError. '
     'Reading any mark followed by enough data returns exactly that many bytes and consumes exactly mark plus data.',
     ['inputs'], 'every length 0..32767 and beyond, every content, every pair of mark bytes, every entry point',
     'Two lengths are tested (5 and 200); the tests themselves say the code is dubious and that only the lines are exercised.',
     [S + 'strings.py'],
     [('NETCharSerializer._st_count_data/_decode_length', S + 'strings.py')],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C23', 'Terminated strings end at the first terminator',
     'Unpacking char[t] returns the bytes before the first occurrence of t and consumes them and that one terminator, and raises ValueError when there is none, for every terminator byte, string length and position, through every method and whatever follows. '
     'Packing writes the value followed by one terminator, which is not added again if the value already ends with it.',
     ['inputs'], 'every terminator byte, every content and length within bounds (streams: beyond several read chunks), every offset, every entry point',
     'Six-byte examples at offset 0; the stream reader\'s 256-byte chunk boundary, offsets and already-terminated values are never exercised.',
     [S + 'strings.py'],
     [('TerminatedCharSerializer._st_data/unpack_from/unpack_read', S + 'strings.py')],
     observe=['Structured.pack*', 'Structured.create_unpack*'])

prop('C24', 'Whatever unpacks also packs back to the same bytes',
     'For any input bytes that unpack successfully, packing the resulting object reproduces exactly the consumed bytes, apart from bytes whose content is not part of any value: padding (written as zero), nonzero bool bytes (written as 1), bytes after the end of a pascal string and pascal lengths beyond the field, NaN payloads, trailing NULs of text, and non-canonical .NET marks.',
     ['inputs', 'programs'], 'every input byte string up to the stated length x class shapes',
     'Tests never unpack data that was not produced by packing.',
     ['structured/structured.py', S],
     [('pack/unpack pairs of every Serializer', S)],
     observe=['Structured.create_unpack*', 'Structured.pack'])

prop('C25', 'Serializers written by the user work in every place',
     'A serializer written against the documented Serializer API (any number of values, unpack methods returning any iterable, also one that unpacks only when iterated, size valid only after an operation, optional methods left out or implemented) and attached with Annotated works as a field, tuple member, array item, union member, conditional field and in nested and recursive classes, through every method, offset and byte order: '
     'its methods get exactly its values, the right place in the buffer or stream and the byte order of the class; prepack/preunpack are called before every operation with an object that has every attribute serialized before it; a serializer they return is used in its place; and everything around it is packed and unpacked as usual.',
     ['inputs', 'programs'], 'all values and input bytes within bounds x arrangements of seven styles of user serializers and built-in ones x entry points x byte orders',
     'The tests contain no serializer of their own.',
     [S + 'api.py', S + 'arrays.py', S + 'tuples.py', S + 'unions.py', S + 'conditional.py', 'structured/structured.py'],
     [('CompoundSerializer, _SpecializedCompoundSerializer', S + 'api.py'), ('get_serializer of unions', S + 'unions.py'), ('README "Serializers"', 'README.md')],
     observe=['Structured.pack*', 'Structured.create_unpack*', 'Structured.serializer.size'])

prop('C26', 'Declarations that cannot work are refused, all others are taken',
     'A hint that cannot be serialized as written raises TypeError or ValueError when it is written or when its class is defined: a length of char, unicode, pascal, pad or array that is negative or no int (a float, even a whole one; char and unicode take math.inf), a terminator that is not one byte, a count, size or length type that is no uint*, an array item, union member, union default, look-ahead type or conditional field that is not serializable, '
     'a decider on something that is no union, SerializeAs of anything but a basic type, a type used without its length, a wrong number of defaults or arguments, an encoding that is neither a codec name nor an EncoderDecoder, struct serializers joined across byte orders, two serializable bases. '
     'Every length that is not negative, every one-byte terminator and every serializable hint is accepted in those places, and hints that are not serializable on their own leave no trace in a class. What is refused does not depend on what was declared before.',
     ['inputs', 'programs'], 'every declared length within bounds, every terminator up to 3 bytes, every pair of 20 places and 40 hints',
     'Tests refuse one example each of a dozen errors; lengths -1, 1, 2, 10 are the only ones used.',
     [H + 'arrays.py', H + 'strings.py', H + 'basic_types.py', H + 'condition.py', H + 'serialize_as.py', S + 'unions.py', S + 'conditional.py', S + 'structs.py', 'structured/base_types.py'],
     [('Header._create, array.__class_getitem__', H + 'arrays.py'), ('AUnion.validate_serializer', S + 'unions.py'), ('requires_indexing', 'structured/base_types.py')],
     observe=['class definition', 'hint[...]'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
