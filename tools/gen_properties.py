#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
D='internal/decoder/'; E='internal/encoder/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    o=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: o['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(o)

p('C01','Decoding never indexes, slices or allocates out of range',
 'For every byte string and every destination type, Unmarshal never panics because of an out-of-range index, slice bound, negative or impossible allocation size, or wrapped arithmetic on a length or index taken from the input. Truncated or hostile input is answered with an error.',
 ['inputs'],'all byte strings (any truncation point, any declared length or index up to the integer limits) and all destination types',
 'The tests try a few dozen malformed strings; the guarantee ranges over every truncation point and every declared length, including values where start+length wraps around.',
 [D+'context.go',D+'int.go',D+'slice.go',D+'array.go',D+'map.go',D+'struct.go',D+'string.go',D+'bytes.go',D+'interface.go',D+'ptr.go',D+'unmarshal_php.go','unmarshal.go'],
 [('bounds helpers checked before every read',D+'context.go hasByte/hasBytes'),('length/index parsing',D+'context.go readLength, int.go readInt')])
p('C02','Unmarshal succeeds only when it consumed exactly the whole input',
 'Unmarshal returns nil only if the bytes decoded as the single top-level value end exactly at the end of the input; trailing or missing bytes give an error. Every nested value decoded on the way starts where the previous one ended and consumes at least one byte.',
 ['inputs'],'all byte strings and destination types',
 'Off-by-one cursor results only show on inputs where the wrong end offset still happens to parse; tests sample a handful of shapes.',
 ['unmarshal.go',D+'context.go',D+'struct.go',D+'slice.go',D+'map.go',D+'array.go',D+'wrapped_string.go'],
 [('end-of-buffer check','unmarshal.go validateEndBuf'),('cursor returned by each decoder',D+'type.go Decoder.Decode')])
p('C03','Only well-formed serialized values are accepted',
 'Every value that decoding accepts, including skipped and unknown ones, has the form its type letter requires: N; or b:0; or b:1; or i: optional minus, digits, ; or d: text ; or s: decimal length : quoted content of exactly that many bytes ; or a / O with class name, decimal count, braces and complete nested values. Anything else is rejected with an error.',
 ['inputs'],'all byte strings and destination types',
 'A missing delimiter check is invisible unless a test happens to corrupt that very byte for that very value kind on that very code path (typed, skipped, interface, wrapped string).',
 [D+'context.go',D+'string.go',D+'int.go',D+'float.go',D+'bool.go',D+'slice.go',D+'map.go',D+'struct.go',D+'array.go',D+'interface.go'],
 [('token scanners',D+'context.go readString/readIntegerBytes/readFloatBytes/readBool/validateNull'),('container loops',D+'slice.go map.go array.go struct.go, context.go skipArray')])
p('C04','Each destination kind accepts exactly its own wire types',
 'A destination accepts only the wire types that can represent it: bool takes b, integers take i, floats d, strings s, slices and arrays a, byte slices a or s, maps and structs a or O, and everything also accepts null; dynamically typed destinations, custom unmarshalers and ignored values accept every wire type. Any other wire type is rejected with an error instead of being coerced or skipped.',
 ['inputs'],'all destination kinds crossed with all leading bytes',
 'The table has about 15 kinds x 256 leading bytes in several code paths; tests touch a few cells.',
 [D+'compile.go',D+'bool.go',D+'int.go',D+'uint.go',D+'float.go',D+'string.go',D+'bytes.go',D+'slice.go',D+'array.go',D+'map.go',D+'struct.go',D+'interface.go'],
 [('type-letter switch of each decoder',D+'*.go Decode')])
p('C05','A decoding failure anywhere is reported by Unmarshal',
 'If decoding any nested key, element, field, skipped value or custom unmarshaler fails, Unmarshal returns a non-nil error; no failure is dropped, overwritten or turned into success.',
 ['inputs'],'every error produced at any depth on any decode path',
 'Each error path must be exercised at each nesting position; the tests exercise a few at the top level.',
 ['unmarshal.go',D+'context.go',D+'slice.go',D+'map.go',D+'struct.go',D+'array.go',D+'ptr.go',D+'interface.go',D+'unmarshal_php.go',D+'wrapped_string.go',D+'compile.go'],
 [('error propagation through every Decode',D+'*.go')])
p('C06','An encoding failure anywhere is reported by Marshal with no output',
 'If encoding any nested element, key or field fails (unsupported type, failing custom marshaler, cyclic value), Marshal returns a non-nil error and no bytes; no failure is dropped or turned into partial output.',
 ['inputs'],'every failing nested value at any position of any encodable shape',
 'Failures must be injected at each container kind and position; tests inject a few.',
 [E+'marshal.go',E+'slice.go',E+'array.go',E+'map.go',E+'map_reflect.go',E+'slice_reflect.go',E+'struct.go',E+'ptr.go',E+'interface.go',E+'marshal_php.go'],
 [('error propagation through every encoder closure',E+'*.go')])
p('C07','Nesting depth of input is bounded before recursion',
 'Decoding input whose nesting exceeds a fixed limit returns an error on every path (typed, dynamically typed, skipped, custom-unmarshaled), so stack use is bounded independently of the input length.',
 ['inputs'],'all inputs of any nesting depth, through any mix of destination types',
 'One deep input per path is tested at most; a path that forgets to count, or resets the count, only fails when that path is nested deeply through that mix of containers.',
 [D+'context.go',D+'type.go',D+'slice.go',D+'array.go',D+'map.go',D+'struct.go',D+'interface.go',D+'unmarshal_php.go'],
 [('depth parameter and limit',D+'type.go maxDecodeNestingDepth')])
p('C08','Numbers that do not fit their destination are rejected, never truncated',
 'When an integer or float in the input cannot be represented in the destination numeric type (too large, negative for unsigned, beyond 64 bits), decoding returns an error; it never stores a wrapped or truncated number. Every narrowing of a parsed number on the way is guarded by a range check.',
 ['inputs'],'all numeric literals and all numeric destination types, including quoted ones',
 'Boundary tests cover some widths; a missing overflow check on one path (quoted numbers, unsigned, float32, array index) is not sampled.',
 [D+'int.go',D+'uint.go',D+'float.go',D+'wrapped_string.go',D+'context.go'],
 [('overflow check before store',D+'int.go processBytes, uint.go processBytes, float.go processBytes'),('range-checked parse',D+'int.go parseInt64')])
p('C09','Decoded data is independent of the input and of its siblings',
 'Nothing Unmarshal stores shares memory with the caller\'s input slice, the input is never written, and values stored in different places never share writable memory: appending to or overwriting one decoded byte slice, or the bytes handed to a custom unmarshaler, cannot change another decoded value or the rest of the parse.',
 ['histories','inputs'],'all later writes by the caller to the input, to any decoded byte slice (including append within capacity), or by a custom unmarshaler to its argument',
 'Aliasing is invisible to equality assertions made right after decoding; it needs a later mutation of one particular alias.',
 ['unmarshal.go',D+'bytes.go',D+'string.go',D+'interface.go',D+'unmarshal_php.go',D+'unsafe.go'],
 [('defensive copy of the input','unmarshal.go unmarshal'),('string conversion copies',D+'string.go, interface.go')])
p('C10','Marshal output is never shared with pooled or cached memory',
 'The byte slice Marshal returns is owned by the caller alone: no later or concurrent Marshal call can modify it, and scratch memory is not used after it has been returned to a pool.',
 ['histories','schedules'],'all sequences and interleavings of Marshal calls reusing pooled scratch memory',
 'Corruption appears only when another call reuses the same pooled buffer while the first result is still read.',
 [E+'marshal.go',E+'context.go',E+'buffer.go',E+'struct.go',E+'float.go'],
 [('copy before release',E+'marshal.go Marshal'),('scratch pools',E+'context.go ctxPool, buffer.go bufferPool')])
p('C11','Concurrent calls share no unsynchronised mutable state',
 'Any number of goroutines may call Marshal and Unmarshal concurrently on distinct values, including first use of a type: everything shared between calls is either never written after initialisation, or accessed only through atomic or pool operations, and a cached codec is complete before other goroutines can see it.',
 ['schedules'],'all interleavings of concurrent calls, including two first uses of one type',
 'A data race needs a particular interleaving and the tests run almost everything single-threaded.',
 [D+'compile.go',D+'context.go',E+'compile_cache.go',E+'context.go',E+'buffer.go',E+'map_reflect.go',E+'struct.go'],
 [('copy-on-write codec cache behind an atomic pointer',D+'compile.go storeDecoder, '+E+'compile_cache.go storeEncoder'),('per-call contexts from pools',D+'context.go, '+E+'context.go')],
 [('cachedDecoderMap','type to decoder cache',D+'compile.go'),('cachedEncoderMap','type to encoder cache',E+'compile_cache.go')])
p('C12','Codec construction terminates for every type, however recursive',
 'For every Go type, including types that refer to themselves through pointers, slices, arrays, maps, structs or named containers, preparing to encode or decode it finishes: it yields a codec or an error and never recurses without bound.',
 ['programs'],'all (mutually) recursive Go type definitions usable as source or destination',
 'The set of recursive type shapes is infinite; the tests declare a few struct cycles.',
 [D+'compile.go',E+'compile.go',E+'struct.go',E+'slice.go',E+'map.go',E+'array.go',E+'ptr.go'],
 [('memo of types under construction',D+'compile.go structTypeToDecoder, '+E+'struct.go compileSeenMap')])
p('C13','Cyclic values are rejected, finite values never mistaken for cycles',
 'Marshal of any value that reaches itself through pointers, slices, maps or interfaces returns an error instead of looping or exhausting the stack, and a finite value is never rejected as recursive merely because it is deep or because distinct parts of it share memory.',
 ['inputs'],'all cyclic and acyclic value graphs over all encodable types',
 'The tests build a few two-node cycles; the guarantee covers every cycle through every mix of container kinds and every finite sharing pattern and depth.',
 [E+'ptr.go',E+'interface.go',E+'slice.go',E+'map.go',E+'struct.go',E+'slice_reflect.go',E+'map_reflect.go',E+'array.go'],
 [('tracking of values being encoded',E+'ptr.go checkRecursiveEncoder/checkStructRecursiveEncoder, interface.go reflectRecursiveValue')],
 [('Seen','identities of values on the encode stack',E+'context.go Ctx.Seen'),('StackDepth','current depth',E+'context.go Ctx.StackDepth')])
p('C14','Marshal output is well-formed: prefixes, counts and delimiters match',
 'Apart from bytes supplied by custom marshalers, every successful Marshal yields one complete value of the format: each string length prefix equals the number of content bytes, each array count equals the number of key/value pairs that follow, keys are integers or strings, and every token is delimited correctly.',
 ['inputs'],'all encodable values: any string content, any container size, any subset of omitted fields, any number formatted as string',
 'Prefix and count mistakes depend on content (multi-byte text, digit counts at powers of ten, omitted fields) that tests only sample.',
 [E+'string.go',E+'bytes.go',E+'common.go',E+'struct.go',E+'slice.go',E+'array.go',E+'map.go',E+'map_reflect.go',E+'slice_reflect.go',E+'int_as_string.go',E+'uint_at_string.go',E+'float.go',E+'bool_as_string.go',E+'interface.go'],
 [('header helpers',E+'common.go'),('digit counting',E+'int_as_string.go iterativeDigitsCount, uint_at_string.go uintDigitsCount')])
p('C15','Every type gets a codec that is legal for it',
 'For every Go type the codec chosen only performs operations that are valid for values of that type, so neither Marshal nor Unmarshal panics with a type or kind mismatch, an unsettable or nil value, or an unhashable key; types that are not supported are refused with an error.',
 ['programs','inputs'],'all Go types (named, nested, keys, elements, fields) and all values of them',
 'The tests instantiate some dozens of types; the space of type constructors and positions (map key, element, quoted field, inside an interface) is unbounded.',
 [D+'compile.go',E+'compile.go',D+'map.go',D+'ptr.go',D+'interface.go',E+'ptr.go',E+'interface.go',E+'map_reflect.go',E+'struct.go'],
 [('codec selection by kind',D+'compile.go compile/compileMapKey, '+E+'compile.go compile/compileMapKey/compileAsString')])
p('C16','A custom marshaler is used wherever its type occurs',
 'Whenever a value whose type implements the custom marshaling interface is encoded, at top level or as element, field, map value, pointer or inside an interface, the output at that place is exactly the bytes its method returned and its error is returned; a nil pointer or nil interface at such a place encodes as null instead of being called.',
 ['programs','inputs'],'all types implementing the interface, with value or pointer receiver, at every position',
 'Positions times receiver kinds times container kinds; tests cover some of them.',
 ['marshal.go',E+'compile.go',E+'marshal_php.go',E+'ptr.go',E+'struct.go',E+'interface.go',E+'slice.go',E+'map.go'],
 [('marshaler dispatch before kind dispatch',E+'compile.go compile, marshal_php.go compileMarshaler')])
p('C17','A custom unmarshaler is used wherever its type occurs, with the exact bytes',
 'Whenever a destination whose pointer type implements the custom unmarshaling interface is decoded at any position, its method receives exactly the bytes of the complete serialized value at that position (validated, nothing more or less) and its error is returned; null resets the destination instead.',
 ['programs','inputs'],'all implementing destination types at every position, all input values',
 'Positions (element, field, map value, key, inside pointers) times input kinds; tests cover few.',
 ['unmarshal.go',D+'compile.go',D+'unmarshal_php.go',D+'interface.go',D+'bytes.go'],
 [('unmarshaler dispatch before kind dispatch',D+'compile.go compile/compileHead/compileMapKey'),('span computed by skipping',D+'unmarshal_php.go Decode')])
p('C18','Every value encodes with the wire type of its kind, nil as null',
 'Marshal writes b for booleans, i for integers, d for floats, s for strings and []byte (nil []byte being the empty string), a for structs, arrays, other slices and maps, and exactly N; for nil pointers, nil interfaces, other nil slices and nil maps, identically whether the value is encoded through its static type or through an interface. Scalar fields with the string option write s (or N; for nil).',
 ['inputs','programs'],'all encodable kinds at all positions, nil and non-nil',
 'Two parallel dispatchers (static and dynamic) must agree for every kind; tests compare some kinds.',
 [E+'compile.go',E+'interface.go',E+'ptr.go',E+'struct.go',E+'map_reflect.go',E+'slice_reflect.go',E+'bytes.go',E+'common.go'],
 [('static dispatch',E+'compile.go compile'),('dynamic dispatch',E+'interface.go reflectInterfaceValue')])
p('C19','Null decodes to the documented effect and never leaves partial state',
 'Decoding null sets pointers, interfaces, slices (including byte slices), maps and custom-unmarshaled destinations to their zero value, leaves booleans, numbers, strings, structs and arrays unchanged, and always consumes exactly its two bytes.',
 ['inputs'],'all destination kinds and positions, whatever the destination held before',
 'Tests decode null into fresh zero destinations, where a forgotten reset cannot be seen.',
 [D+'ptr.go',D+'slice.go',D+'map.go',D+'bytes.go',D+'interface.go',D+'unmarshal_php.go',D+'bool.go',D+'int.go',D+'uint.go',D+'float.go',D+'string.go',D+'struct.go',D+'array.go',D+'wrapped_string.go'],
 [('null case of each decoder',D+'*.go')])
p('C20','Per-call state is clean for the next call on every exit',
 'Whatever a Marshal or Unmarshal call does, including failing, the scratch state it hands back for reuse carries nothing that can affect a later call: cycle-tracking entries and depth are restored on every exit, buffers are used from length zero, and no reference to the call\'s input is retained.',
 ['histories','fault_sequences'],'all sequences of calls with failures at any nested position followed by calls that reuse the state',
 'Needs a failing call at a particular nesting followed by a successful one that happens to reuse the same pooled object.',
 [E+'context.go',E+'buffer.go',E+'marshal.go',E+'ptr.go',E+'interface.go',D+'context.go','unmarshal.go'],
 [('enter/leave pairs',E+'ptr.go checkRecursiveEncoder, interface.go reflectRecursiveValue'),('reset on release',D+'context.go ReleaseRuntimeContext')])
p('C21','A cached codec is only ever used for exactly the type it was built for',
 'A codec obtained from any cache, memo or table is one that was built for exactly the requested type and role; different types, including different named types with one kind or one name, never share a codec built for another.',
 ['programs','histories'],'all sequences of types used with Marshal and Unmarshal',
 'A wrong key is only visible when two colliding types are used in one process in the right order.',
 [D+'compile.go',E+'compile_cache.go',E+'struct.go',E+'slice.go',E+'map.go',E+'ptr.go'],
 [('cache keyed by reflect type',D+'compile.go CompileToGetDecoder, '+E+'compile_cache.go')])
p('C22','Encoder and decoder interpret struct fields and tags identically',
 'For every struct type, Marshal and Unmarshal agree on which fields take part (exported, not marked ignored), on the key each field has, and on which scalar fields the string option quotes; fields that are ignored or unexported are neither written nor set. Struct types with embedded struct fields are refused by both.',
 ['programs'],'all struct types and tag strings',
 'The two sides implement tag handling separately; agreement over all tag strings cannot be sampled.',
 ['internal/runtime/struct_field.go',E+'struct.go',D+'compile.go',D+'struct.go',D+'wrapped_string.go'],
 [('shared tag parser','internal/runtime/struct_field.go StructTagFromField/IsIgnoredStructField')])
p('C23','Invalid destinations are refused with an error before anything happens',
 'Unmarshal into nil, a non-pointer or a nil pointer, and Unmarshal of empty input, return an error for every such argument without panicking and without modifying anything.',
 ['inputs','programs'],'all non-pointer or nil destinations of any type and all inputs',
 'Tests pass one or two invalid destinations.',
 ['unmarshal.go','internal/errors/error.go'],
 [('destination validation','unmarshal.go validateValue')])
p('C25','Memory reserved up front is bounded by the input actually present',
 'The amount of memory reserved because of a declared length or count never exceeds a constant factor of the bytes still available in the input at that point, so a short hostile input cannot make decoding reserve huge memory.',
 ['inputs'],'all declared lengths and counts up to the integer limit',
 'Requires a hostile header on each container path.',
 [D+'slice.go',D+'map.go',D+'context.go'],
 [('allocation from declared count',D+'slice.go, map.go')])
p('C26','Encoding never modifies the value being encoded',
 'Marshal only reads its argument: no byte reachable from it is ever written, no map entry added or removed, and no slice element overwritten, including through appends into spare capacity.',
 ['inputs','schedules'],'all values, also when several goroutines marshal the same value concurrently',
 'A write of an equal value or into spare capacity is invisible to equality assertions and shows only as a race or later corruption.',
 [E+'bytes.go',E+'ptr.go',E+'interface.go',E+'map.go',E+'map_reflect.go',E+'struct.go',E+'slice.go',E+'float.go'],
 [('encoders append to their own buffer only',E+'*.go')])
p('C27','Numbers are encoded at full precision from the value itself',
 'Marshal formats every integer in base ten from its full 64-bit value and signedness, and every float with the shortest digits that round-trip at the width of its type; NaN and infinities use the spellings the decoder accepts.',
 ['inputs'],'all values of all numeric kinds, plain, quoted, or inside interfaces',
 'Precision or sign loss shows only for values outside the sampled ranges.',
 [E+'int.go',E+'uint.go',E+'float.go',E+'int_as_string.go',E+'uint_at_string.go',E+'interface.go',D+'float.go'],
 [('strconv appenders with fixed parameters',E+'int.go, uint.go, float.go')])
p('C28','Marshal and Unmarshal are inverse for supported values',
 'For every value of a supported type, decoding the bytes Marshal produced into a fresh value of the same type yields an equal value.',
 ['inputs','programs'],'all values of all supported types',
 'Equality of the reconstructed value over all values cannot be sampled.',
 [E+'compile.go',D+'compile.go'],[('paired codecs',E+'compile.go, '+D+'compile.go')])
p('C29','Numeric text is converted to exactly the number it denotes',
 'Every accepted integer or float literal is stored as the mathematically denoted value (correctly rounded for floats).',
 ['inputs'],'all numeric literals',
 'The digit-accumulation arithmetic must be right for every digit string.',
 [D+'int.go',D+'uint.go',D+'float.go'],[('parser',D+'int.go parseInt64')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for o in P:
        assert len(o['title'])<=80,(o['id'],len(o['title']))
        n=o['statement'].count('. ')+1
        assert n<=3,(o['id'],n)
        f.write(json.dumps(o,ensure_ascii=False)+'\n')
print(len(P))
