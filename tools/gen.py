#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the texts below and jobs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import jobs
I = 'include/zerialize/'
PR = I + 'protocols/'
T = []
def p(id, title, stmt, over, qtext, why, files, mech, observe=None, level_note=None):
    T.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
def rt(id, name, file, extra, mech):
    p(id, name + ' round trip: what is written is what is read',
      'Every document written with ' + name + ' (null, booleans, 64-bit signed and unsigned integers, doubles, strings, binary blobs, arrays, maps, arbitrarily nested) reads back as the same document: same kinds, bit-identical scalars, identical bytes, same array order and same map entries' + extra,
      ['inputs'], 'all documents up to the stated node count, depth and length bounds, all leaf contents',
      'The tests write a handful of fixed documents; the encodings switch representation with magnitude, length and element count (inline/out-of-line, 8/16/32-bit headers), so a wrong boundary shows only for particular values and sizes.',
      [file, I + 'serialize.hpp', I + 'internals/serializers.hpp'], mech)
rt('C01', 'ZERA', PR + 'zera.hpp', ', with map keys in the order written.', [('writer value/entry encoding', PR + 'zera.hpp: Serializer'), ('reader value decoding', PR + 'zera.hpp: ValueView accessors')])
rt('C02', 'MsgPack', PR + 'msgpack.hpp', ', with map keys in the order written.', [('writer', PR + 'msgpack.hpp: Serializer over msgpack-c'), ('hand-written reader and skip', PR + 'msgpack.hpp: MsgPackDeserializer')])
rt('C03', 'FlexBuffers', PR + 'flex.hpp', ' (map keys distinct and without NUL bytes; key order is the format\'s own).', [('writer over flatbuffers builder', PR + 'flex.hpp: Serializer'), ('reader over flexbuffers references', PR + 'flex.hpp: FlexDeserializer / FlexViewBase')])
p('C04', 'ZERA reader never leaves the given bytes, whatever they are',
  'Opening any byte sequence as ZERA and applying any reader operation to it or to values reached from it only ever reads inside the given bytes, only returns views inside them, terminates, and either succeeds or raises a deserialization error.',
  ['inputs'], 'all byte sequences up to the length bound, all operations and operation sequences to the stated depth',
  'Tests feed valid buffers plus a few corrupted headers; the dangerous inputs are specific offset/length combinations (wrapping sums, unaligned arenas, counts past the end) among 2^384.',
  [PR + 'zera.hpp'], [('header validation', PR + 'zera.hpp: ZeraDeserializer constructor'), ('bounds checks on value refs, arena spans and container payloads', PR + 'zera.hpp: ValueView, KeysView')])
p('C05', 'MsgPack reader never leaves the given bytes, whatever they are',
  'Opening any byte sequence as MsgPack and applying any reader operation to it or to values reached from it only ever reads inside the given bytes, only returns views inside them, terminates without unbounded recursion, and either succeeds or raises a deserialization error.',
  ['inputs'], 'all byte sequences up to the length bound, all operations and operation sequences to the stated depth',
  'Tests only read buffers the library wrote itself; truncated headers and lengths larger than the input are never fed.',
  [PR + 'msgpack.hpp'], [('header/payload bounds checks and iterative skipping', PR + 'msgpack.hpp: MsgPackDeserializer')])
p('C06', 'Integer accessors are exact or raise, never wrap',
  'Reading an integer through any of the eight fixed-width accessors returns exactly the stored value when it is representable in that width and signedness, and raises a deserialization error otherwise; this holds for every encoding the formats allow for an integer, and for values written signed and read unsigned or the reverse.',
  ['inputs'], 'every 64-bit value times every accessor times every wire encoding, in ZERA, MsgPack and FlexBuffers',
  'Tests read small in-range values with the accessor matching the writer; the failures are at type boundaries and across signedness.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp'], [('range checks in asInt*/asUInt*', 'each protocol reader')])
p('C07', 'Kind predicates are exclusive and wrong-kind access raises',
  'For every readable value exactly the predicates of its kind hold (an integer may satisfy the signed and the unsigned one when it is representable in both), each accessor succeeds exactly on values of its kind, and using any other accessor raises a deserialization error instead of returning converted or invented data.',
  ['inputs'], 'all kinds and contents times all predicates and accessors, at the root and inside containers, in ZERA, MsgPack and FlexBuffers',
  'Tests check a few predicate/accessor pairs on fixed values; the full cross product with arbitrary contents is not sampled.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp'], [('type checks before every accessor', 'each protocol reader')])
p('C08', 'Translation between protocols preserves the document',
  'Translating any document read in one protocol into any protocol (including itself) yields a reader presenting the same document: same kinds, bit-identical scalars, identical strings and blobs, same array order and same map entries. Translating a nested value gives exactly that sub-document, and the result stays valid after the source is gone.',
  ['inputs', 'configurations'], 'all documents within the size bounds, all nine ordered pairs of ZERA, MsgPack and FlexBuffers',
  'Tests translate a few fixed documents; losses would be specific to kinds, magnitudes, key contents or container sizes in a particular pair.',
  [I + 'translate.hpp', PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp'], [('generic reader-to-writer walk', I + 'translate.hpp: write_value, translate')])
p('C09', 'Map lookup, membership and key listing agree',
  'For every map and every probe key, membership is true exactly when the key was written, lookup returns that key\'s value and raises a deserialization error exactly when the key is absent, and the key listing yields each written key exactly once; keys are compared as whole byte strings.',
  ['inputs'], 'all sets of distinct keys and all probe keys within the length bounds, in ZERA, MsgPack and FlexBuffers, for root and nested maps',
  'Tests probe fixed short keys; prefix, length-boundary and ordering mistakes need particular key pairs.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp'], [('key comparison in contains/operator[]/mapKeys', 'each protocol reader')])
p('C10', 'Array indexing returns the i-th element or raises',
  'For every array and every 64-bit index, indexing returns exactly the element written at that position when the index is below the array size and raises a deserialization error otherwise.',
  ['inputs'], 'all indices, arrays up to the size bound, in ZERA, MsgPack and FlexBuffers',
  'Tests index a few valid positions and at most one past the end; wrapping index arithmetic needs huge indices.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp'], [('index bound checks and element skipping', 'each protocol reader')])
p('C11', 'Tensor decoding validates type, rank, shape and payload size',
  'Decoding any stored value as a tensor or matrix succeeds exactly when it is a tensor (element-type code, array of non-negative integer dimensions that fit in 32 bits, and binary payload, as an array of at least three elements or as a map) of the requested element type, rank and fixed dimensions whose payload size equals the product of its dimensions times the element size, computed without overflow; otherwise a deserialization error is raised. It never reads beyond the payload and never yields elements that were not in it.',
  ['inputs'], 'all element-type codes, shapes with arbitrary 64-bit dimensions, and payload lengths within the bounds, in array and map form, for xtensor and Eigen',
  'Tests decode tensors the library wrote; hostile shapes whose product overflows or disagrees with the payload are not covered.',
  [I + 'tensor/utils.hpp', I + 'tensor/xtensor.hpp', I + 'tensor/eigen.hpp'], [('shape/payload validation', I + 'tensor/xtensor.hpp: asXTensorView, ' + I + 'tensor/eigen.hpp: asEigenMatrixView')])
p('C12', 'Tensors and matrices round trip element for element',
  'An xtensor container or view, or an Eigen matrix, written in any protocol and decoded with the same element type has the same shape and bit-identical elements at every index, for every supported element type and memory layout, in array form and in map form.',
  ['inputs', 'configurations'], 'all element contents, element types, ranks and layouts within the bounds, in ZERA, MsgPack and FlexBuffers',
  'Tests use a few fixed float/int arrays in row-major layout.',
  [I + 'tensor/utils.hpp', I + 'tensor/xtensor.hpp', I + 'tensor/eigen.hpp'], [('shape and payload emission', I + 'tensor/*.hpp serialize'), ('decode', I + 'tensor/*.hpp as*')])
p('C13', 'Tensor views borrow only when safe and say so',
  'A decoded tensor view is backed by the input bytes exactly when its report says it is zero-copy, which happens exactly when the payload address is suitably aligned for the element type; otherwise it owns a copy. In either case every element equals the stored bytes and each reported address, alignment, size and reason is true.',
  ['inputs', 'configurations'], 'all payload alignments, element types and contents within the bounds',
  'Tests happen to see one alignment per run; misalignment depends on buffer placement and preceding content lengths.',
  [I + 'tensor/xtensor.hpp', I + 'tensor/eigen.hpp', I + 'tensor/view_info.hpp', PR + 'zera.hpp'], [('alignment test and fallback copy', I + 'tensor/xtensor.hpp: asXTensorView'), ('16-byte arena and blob alignment', PR + 'zera.hpp: Serializer::binary/finish')])
p('C14', 'ZERA output conforms to the published layout',
  'Every finished ZERA buffer follows the format document: magic, version, flags, envelope size, arena offset aligned to 16, zero padding, 16-byte value references with zero reserved bits, inline strings up to 12 bytes, arena blobs aligned to 16, and container payloads with matching counts; an independent decoder written from the document recovers the written value.',
  ['inputs'], 'all documents within the size bounds', 'Tests check only a few header bytes; conformance of padding, flags and alignment varies with content lengths.',
  [PR + 'zera.hpp', PR + 'ZERA.md'], [('envelope and arena writers', PR + 'zera.hpp: RootSerializer, Serializer')])
p('C15', 'ZERA header is accepted exactly when its invariants hold',
  'A buffer is accepted as ZERA exactly when it has the documented magic, version and little-endian flag, a 16-aligned arena offset not before the end of the envelope, an envelope and arena inside the buffer, and a root value reference inside the envelope; every other buffer is rejected with a deserialization error.',
  ['inputs'], 'all header contents (20 arbitrary bytes) and buffer lengths within the bounds', 'Tests corrupt a couple of header fields; the acceptance condition is a relation over five 32-bit fields.',
  [PR + 'zera.hpp', PR + 'ZERA.md'], [('header checks', PR + 'zera.hpp: ZeraDeserializer constructor')])
p('C16', 'Misused ZERA writer raises instead of emitting a bad buffer',
  'For every sequence of writer calls, either some call raises a serialization error because the sequence is not a well-formed document (unclosed or mismatched containers, keys outside maps, values without keys, two roots, over-long keys, use after finishing), or the sequence is a well-formed document and the finished buffer reads back as exactly it.',
  ['histories'], 'all call sequences up to the stated length with arbitrary arguments', 'Tests try two or three misuse patterns; the state space of call sequences is not sampled.',
  [PR + 'zera.hpp'], [('container frame stack and pending-key state', PR + 'zera.hpp: Serializer')])
p('C17', 'MsgPack buffers follow the MessagePack specification',
  'Every buffer written as MsgPack is a single well-formed MessagePack object that an independent decoder written from the specification reads as the written document, and every MessagePack encoding of a document, minimal or not, is read by the library as that document.',
  ['inputs'], 'all documents within the bounds and, for reading, every wire format with arbitrary payload within the length bounds', 'Tests only read what the library wrote, which exercises just the minimal encodings.',
  [PR + 'msgpack.hpp'], [('writer', PR + 'msgpack.hpp: Serializer'), ('header decoding', PR + 'msgpack.hpp: MsgPackDeserializer')])
p('C18', 'Every way of expressing a document yields the same bytes',
  'The same document expressed with compile-time builders, dynamic values, standard containers or direct writer calls produces identical bytes in each protocol, and serializing the same value twice gives the same bytes.',
  ['inputs', 'configurations'], 'all leaf contents, for every builder form and nesting within the bounds, in ZERA, MsgPack and FlexBuffers', 'Tests compare decoded values for a few fixed examples of each form, never across forms.',
  [I + 'zbuilders.hpp', I + 'dynamic.hpp', I + 'serialize.hpp', I + 'internals/serializers.hpp', I + 'internals/tuple_for_each.hpp'], [('builder emission', I + 'zbuilders.hpp: zvec, zmap'), ('dynamic value visitor', I + 'dynamic.hpp: serialize'), ('container overloads', I + 'internals/serializers.hpp')])
p('C19', 'Byte buffers own their storage exactly once through any history',
  'Through every sequence of constructions, moves, move-assignments and destructions, a byte buffer presents exactly the bytes it was given, a moved-from buffer is empty, and each deleter runs exactly once, with the pointer it was given, no earlier than the last buffer holding it ends; invalid arguments raise an argument error.',
  ['histories'], 'all operation sequences up to the stated length over all storage kinds', 'Tests construct and move once; ownership errors need particular sequences.',
  [I + 'zbuffer.hpp'], [('storage variant and type-erased deleters', I + 'zbuffer.hpp: ZBuffer')])
p('C20', 'Base64 codec is exact and strict',
  'Encoding any bytes gives exactly their RFC 4648 standard-alphabet text with padding, decoding that text gives back exactly those bytes, and decoding text with any character outside the alphabet before the padding raises a deserialization error.',
  ['inputs'], 'all byte strings and texts up to the length bound', 'The codec is only reached through the optional JSON backend, which the test build does not have.',
  [I + 'internals/base64.hpp'], [('encode/decode', I + 'internals/base64.hpp')])
p('C21', 'Readers, views and builders stay valid for as long as promised',
  'An owning reader, and every copy, move or assignment of it, keeps presenting its document after the source buffer and the original reader are gone; values, keys, strings and blobs obtained from a reader stay valid while the bytes they came from live, even when the intermediate values are temporaries; a stored builder can be serialized later and repeatedly.',
  ['histories'], 'all bounded sequences of copy, move, assign and destroy over readers and views, in ZERA, MsgPack and FlexBuffers', 'Tests read immediately from live readers; dangling references only show after particular lifetimes.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp', I + 'zbuilders.hpp'], [('owning vs borrowing constructors, copy/move operations', 'each protocol reader'), ('capture of temporaries', I + 'zbuilders.hpp')])
p('C22', 'CBOR reader never leaves the given bytes, whatever they are',
  'Opening any byte sequence as CBOR and applying any typed reader operation (predicates, accessors, array and map access, key iteration) to it or to values reached from it only ever reads inside the given bytes, only returns views inside them (keys written in chunks: inside their iterator), terminates without unbounded recursion, and either succeeds or raises a deserialization error.',
  ['inputs'], 'all byte sequences up to the length bound, all operations to the stated depth', 'The CBOR backend is not built by the test configuration at all.',
  [PR + 'cbor.hpp'], [('hand-written header parsing and skipping', PR + 'cbor.hpp: CborDeserializer')])
p('C23', 'CBOR documents are read as RFC 8949 says',
  'Every well-formed CBOR document built from null, booleans, integers of every encoded width, half/single/double floats, definite and indefinite strings, arrays and text-keyed maps is read with the kinds, values, sizes and map entries the RFC gives it, integers being exact or raising when out of range.',
  ['inputs'], 'all documents within the bounds with every header width and arbitrary payloads', 'The CBOR backend is not built by the test configuration at all.',
  [PR + 'cbor.hpp'], [('hand-written header parsing', PR + 'cbor.hpp: CborDeserializer')])
p('C24', 'JSON documents read back as written, blobs included',
  'Over a JSON library that reads back what it writes, every document of finite numbers and UTF-8 text written as JSON reads back as the same document - kinds, values, sizes, every key including the empty one and keys with NUL bytes, blobs through their ["~b", base64, "base64"] form - also when its text came from temporaries and through translation from and to every other format; integers are exact or raise, a value is an int exactly when it fits int64, an absent key or index raises; what JSON cannot express (NaN, infinities, text that is not UTF-8) raises instead of becoming something else; nothing is leaked when writing or reading raises, and writer calls out of order raise.',
  ['inputs', 'histories'], 'all documents within the bounds with arbitrary contents', 'The JSON backend is not built by the test configuration at all.',
  [PR + 'json.hpp', I + 'internals/base64.hpp', 'include/zerialize/translate.hpp'], [('reader and writer over the yyjson document tree', PR + 'json.hpp: JsonDeserializer, Serializer'), ('blob embedding', PR + 'json.hpp: isBlob, asBlob, binary')])
p('C25', 'Translating untrusted bytes is safe and faithful',
  'Translating a reader over any byte sequence to any protocol never touches memory it must not, never exhausts the stack however deep or cyclic the input is, never allocates memory out of proportion because the input claims a large count, and either raises one of the library\'s errors or gives a document that says what the source reader says.',
  ['inputs'], 'all source byte sequences up to the length bounds, every destination protocol', 'Tests translate only documents the library itself wrote.',
  ['include/zerialize/translate.hpp', PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'cbor.hpp'], [('write_value recursion', 'include/zerialize/translate.hpp: write_value'), ('reserve hints', PR + 'zera.hpp: Serializer::begin_array')])
p('C26', 'Readers, builders and codecs can be shared between threads',
  'Any number of threads may at the same time read one reader or its children, serialize one builder or value, translate from one reader, read one buffer, view one tensor, or run writers and codecs of their own, without synchronisation: no such operation writes to anything that existed before it, and each gives the answer it gives when run alone.',
  ['schedules', 'inputs'], 'all interleavings of any number of threads (by showing that no operation writes shared memory), all document contents within the bounds', 'Tests are single-threaded; a hidden cache or cursor gives right answers there.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp', PR + 'cbor.hpp', I + 'zbuilders.hpp', I + 'tensor/xtensor.hpp', I + 'internals/base64.hpp'], [('const reader operations', 'each protocol reader'), ('const serialization of values and builders', I + 'zbuilders.hpp, concepts.hpp')])
p('C27', 'What a reader answers depends on its bytes only',
  'Every reader operation gives the same answer however often and in whatever order operations were asked before, whichever other readers, writers or documents were used in between, even where the same storage held another document before; views handed out earlier keep their contents; encoding the same document twice gives the same bytes.',
  ['histories', 'inputs'], 'all pairs of operations on all inputs within the bounds', 'Tests ask each question once, in one order, of a fresh reader.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp', PR + 'cbor.hpp'], [('reader operations', 'each protocol reader'), ('writers', 'each protocol Serializer')])
p('C28', 'The debug text of any bytes is safe to ask for',
  'to_string() of a ZERA, MessagePack or CBOR reader over any byte sequence, and of a FlexBuffers reader over any document this library wrote, only reads inside the given bytes, ends, does not exhaust the stack however deeply the input is nested, and either gives a text or raises a deserialization error; a document this library wrote always has a text.',
  ['inputs'], 'all byte sequences up to the length bound; all documents within the bounds', 'Tests print a few valid documents, if any; the CBOR backend is not built by the test configuration.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp', PR + 'cbor.hpp'], [('recursive dumpers', PR + 'msgpack.hpp: dump, ' + PR + 'cbor.hpp: dump_rec, ' + PR + 'flex.hpp: dump_rec'), ('ZERA summary', PR + 'zera.hpp: to_string')])
p('C29', 'Floating-point accessors are exact',
  'asDouble gives exactly the double that was stored, bit for bit (signed zeros, subnormals, infinities and NaN payloads included), asFloat gives the nearest float (a NaN for a NaN), a number written as a C++ float reads back as that float and widens to the same double, and a stored float is classified as a float and never as an integer - whatever its value, position and neighbours.',
  ['inputs'], 'all 2^64 doubles and all 2^32 floats (NaN floats excluded), at every position within the bounds, in ZERA, MsgPack and FlexBuffers',
  'Tests use a few decimal constants; narrowing a double that happens to fit a float, losing a sign or a NaN payload, or classifying integral values as integers only shows at particular bit patterns.',
  [PR + 'zera.hpp', PR + 'msgpack.hpp', PR + 'flex.hpp', I + 'concepts.hpp'], [('double writers', 'each protocol Serializer'), ('asDouble/asFloat', 'each protocol reader')])
p('C30', 'CBOR documents written by the library read back, through every operation',
  'Over a CBOR encoder that follows RFC 8949, every document written as CBOR reads back as the same document (kinds, 64-bit integers, doubles bit for bit, text, blobs, array order, map keys and entries); its integer, floating-point and kind accessors, lookup and indexing keep the promises C06, C07, C09, C10 and C29 make for the other formats; builders (C18), reader and view lifetimes (C21), and translation from and to ZERA, MsgPack, FlexBuffers and CBOR (C08) are faithful there too.',
  ['inputs', 'histories'], 'all documents within the bounds with arbitrary contents, every destination and source protocol', 'The CBOR writer is not built by the test configuration at all.',
  [PR + 'cbor.hpp', 'include/zerialize/translate.hpp', I + 'serialize.hpp'], [('writer', PR + 'cbor.hpp: Serializer'), ('reader', PR + 'cbor.hpp: CborDeserializer')])
NA = {}
EXTRA = {}
props = [t for t in T if t['id'] in jobs.PROPS or t['id'] in NA]
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write(''.join(json.dumps(t, ensure_ascii=False) + '\n' for t in props))
man = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
for t in props:
    if t['id'] in NA: continue
    man['checks'].append(dict(property=t['id'], quick_cmd='python3 check.py %s quick' % t['id'], thorough_cmd='python3 check.py %s thorough' % t['id'],
        technique='bounded path-exhaustive symbolic execution of the LLVM IR compiled from /repo (zsym, own engine) with Z3 deciding every branch, bound and assertion; counterexamples replayed natively under ASan',
        level='model_checking', level_note='Holds for every input within: ' + jobs.PROPS[t['id']]['bounds'] + '. Nothing is claimed outside these bounds.'))
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
for t in props:
    assert len(t['title']) <= 80, t['id']
print(len(props), 'properties', len(man['checks']), 'checks')
