#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and of the per-check part of /verif/MANIFEST.json.
   python3 pbt/props.py   rewrites both (deterministic)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'pbt'))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=(), na=None, technique='', note=''):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  state=state, na=na, technique=technique, note=note))


SER = 'src/protobuf/qprotobufserializer.cpp'
SERP = 'src/protobuf/qprotobufserializer_p.h'
ABS = 'src/protobuf/qabstractprotobufserializer_p.h'
IT = 'src/protobuf/qprotobufselfcheckiterator.h'
TYPES = 'src/protobuf/qtprotobuftypes.h'
LAZY = 'src/protobuf/qprotobuflazymessagepointer.h'
TPL = 'src/generator/templates.cpp'
MDECL = 'src/generator/messagedeclarationprinter.cpp'
MDEF = 'src/generator/messagedefinitionprinter.cpp'
GCOM = 'src/generator/generatorcommon.cpp'

prop('P01', 'Encoded messages are readable by any protobuf implementation',
     'Serializing a message object yields a valid proto3 encoding that the reference protobuf implementation decodes to exactly the same field values, for every field type, cardinality (single, repeated, map), field number and nesting. Serializing the unchanged object again yields the same message.',
     ['inputs'], 'all message types expressible in the supported proto3 subset and all values of their fields (boundary integers, NaN/infinities, arbitrary unicode and bytes, long and empty containers)',
     'The serialization tests compare a few dozen hand-written values per type with hex literals; varint boundaries, tag sizes, element counts and nested combinations are unbounded.',
     [SER, SERP, ABS], [('varint / fixed / length-delimited encoders', SERP), ('field ordering and headers', SER + ' serializeMessage, serializeProperty, encodeHeader'), ('list, map and enum handlers', ABS)],
     ['bytes returned by serialize()'],
     technique='random typed message values; differential oracle: libprotobuf DynamicMessage decodes the bytes', note='Random search over a fixed broad schema (15 message types); trusts libprotobuf 3.21 as reference.')
prop('P02', 'Messages encoded by other implementations decode to the same values',
     'Deserializing the encoding that the reference protobuf implementation produces for any message value succeeds and gives a message object holding exactly those field values.',
     ['inputs'], 'all values of all supported field types, cardinalities, field numbers and nestings, as encoded by a conforming peer',
     'Deserialization tests feed a few hand-written hex strings per type; value ranges and combinations are unbounded.',
     [SER, SERP, ABS, IT], [('varint / fixed / length-delimited decoders', SERP), ('field dispatch', SER + ' deserializeProperty'), ('list, map and enum handlers', ABS)], ['field values after deserialize()'],
     technique='random values encoded by libprotobuf, decoded by the library, compared field by field', note='Random search; trusts libprotobuf as encoder.')
prop('P03', 'Equivalent wire encodings decode to the same message',
     'Every encoding that the protobuf specification declares equivalent decodes to the same message: fields in any order, packed or one-by-one repeated scalars and enums and packed data split in several chunks, a singular field given several times (last one wins, sub-messages merge), over-long varints, explicitly encoded defaults, map entries in any key/value order or with key or value missing or repeated, duplicate map keys (last wins).',
     ['inputs'], 'all messages and all specification-equivalent encodings of them',
     'No existing test sends anything but the canonical encoding.',
     [SER, SERP, ABS], [('chunk appending and unpacked elements', SER + ' deserializeValue'), ('sub-message merging', ABS + ' deserializeObject'), ('map entry parsing', SER + ' deserializeMapPair')], ['field values after deserialize()'],
     technique='metamorphic: random message re-encoded by a hand-written encoder in random equivalent forms, cross-checked with libprotobuf', note='Random search; each generated form is first confirmed equivalent by libprotobuf.')
prop('P04', 'Round trip is lossless and decoding fully replaces the target',
     'Deserializing what the library serialized gives an equal message, whatever the target object held before (fields absent from the data go back to their defaults). Serialization never modifies the message and decoding followed by encoding keeps the content.',
     ['inputs', 'histories'], 'all messages, all previous contents of the target object, all sequences of decodes into one object',
     'Round-trip tests use fresh objects and fixed values; reuse of an object over histories of decodes is not sampled.',
     ['src/protobuf/qabstractprotobufserializer.h', SER, ABS, TPL], [('decode into a fresh object, then assignment', 'src/protobuf/qabstractprotobufserializer.h deserialize'), ('generated copy assignment and equality', MDEF)], ['field values and operator== after deserialize()'],
     technique='stateful random histories of decodes into one object with model = last message; round-trip oracle', note='Random search, histories of up to 5 steps.')
prop('P05', 'Unknown fields are skipped without disturbing known ones',
     'Data containing fields the receiving message type does not declare (any field number, any scalar or length-delimited wire type, at any position and nesting level, also inside map entries) or a declared field number with a wire type that does not fit its type decodes successfully and yields exactly the values of the known fields.',
     ['inputs'], 'all messages, all well-formed unknown fields, all positions',
     'Two tests with one unknown field each exist; number of fields, tag sizes, wire types, positions and nesting are not sampled.',
     [SER, SERP, IT], [('skipping by wire type', SER + ' skipSerializedFieldBytes'), ('field lookup', SER + ' deserializeProperty')], ['field values after deserialize()'],
     technique='random insertion of unknown fields into valid encodings; oracle: same values as without them (and libprotobuf)', note='Random search; deprecated group wire types are not generated.')
prop('P06', 'Malformed input is handled safely',
     'Deserializing arbitrary bytes either succeeds or throws a standard exception; it never crashes, hangs, reads outside the given buffer or throws anything else. The target object stays usable: it can be read, serialized and used to decode the next valid message correctly.',
     ['inputs'], 'all byte strings, all message types, all previous contents of the target',
     'Only a handful of malformed inputs are tested, without memory checking.',
     [IT, SERP, SER, ABS], [('bounds-checked iterator', IT), ('header validation', SERP + ' decodeHeader')], ['exceptions, sanitizer reports, object state after deserialize()'],
     technique='mutation fuzzing of encodings and raw bytes under ASan/UBSan, plus a recovery oracle; libFuzzer in the thorough tier', note='Random and coverage-guided search under AddressSanitizer on exact-size buffers.')
prop('P07', 'Truncated data is always rejected',
     'If the encoding of a message is cut anywhere inside a field - at the top level, inside a nested message, inside a map entry or inside an element of a packed list - deserialization throws; cut exactly between fields it decodes to the fields that are complete.',
     ['inputs'], 'all messages and all cut positions at all nesting levels',
     'No test truncates systematically; the number of (message, cut) pairs is unbounded.',
     [IT, SERP, SER], [('bounds-checked iterator', IT), ('length checks', SERP + ' deserializeLengthDelimited, deserializeList')], ['exception or field values after deserialize()'],
     technique='random messages cut at every or random positions (top level and re-framed nested payloads); reject-or-prefix oracle', note='Random search; all cut positions for encodings up to 48 bytes.')
prop('P08', 'Messages behave as independent values',
     'Copying, moving and assigning messages gives objects equal to the source content, and afterwards changing one never changes another, in any sequence of such operations including self-assignment. Two messages compare equal exactly when all their fields are equal, and a moved-from message can be reused.',
     ['histories', 'inputs'], 'all message types, all sequences of construct / copy / move / assign / set / destroy over several objects',
     'Copy and move tests check one operation on one or two message types; aliasing only shows in longer histories.',
     [TPL, MDEF, MDECL, LAZY, TYPES], [('generated copy/move constructors, assignments, equality', TPL), ('lazy nested message holder', LAZY), ('list and map comparison', TYPES)], ['field values, operator== / operator!='],
     technique='model-based random histories over a pool of objects; oracle: map from object to value tree', note='Random search under ASan; repeated and map message items are shared handles by documented API design, so only replacing them is generated as a change.')
prop('P09', 'Change notifications are emitted exactly when a property changes',
     'Setting a property through its setter or the property system emits its change signal exactly once if the new value differs from the current one and not at all otherwise, and never emits the signal of another property; when the signal arrives the property already has the new value. (For repeated and map message fields a new container whose items are other objects with equal content may or may not notify.)',
     ['inputs', 'histories'], 'all properties of all message types, all pairs of old and new values, all histories of sets and assignments',
     'A few properties are tested with one value each.',
     [TPL, MDEF, LAZY], [('generated setters', TPL), ('generated assignment operators', MDEF)], ['emitted signals and the value read in the slot'],
     technique='random histories of sets/assignments with a signal recorder; oracle: value comparison in the model', note='Random search under ASan.')
prop('P10', 'Nested message objects have a sound lifetime',
     'Nested messages handed to or obtained from a message (by value, pointer or shared handle, through accessors or the property system) stay valid as long as documented, are destroyed exactly once and are never leaked, in every sequence of sets, reads, external deletions, copies and destructions.',
     ['histories'], 'all sequences of operations on nested message properties',
     'Memory errors need specific operation sequences and instrumentation.',
     [LAZY, TPL, MDEF, 'src/protobuf/qqmllistpropertyconstructor.h', ABS], [('lazy owning pointer', LAZY), ('pointer setters', TPL)], ['AddressSanitizer / live-object count'],
     technique='random operation histories under ASan with a live-instance ledger', note='Random search; live QObjects are counted through the object life-cycle hooks of QtCore.')
prop('P11', 'The property system and metadata agree with the typed API',
     'For every message type, reading or writing a field through the meta-object property system, the typed accessors, the constructor arguments (in field declaration order) or the encoded bytes refers to the same value; every declared proto field has exactly one property, with the declared field number in the protobuf metadata, and no other field numbers occur.',
     ['programs', 'inputs'], 'all message types and all values of their fields',
     'Tests check property presence for single types only.',
     [TPL, MDEF, 'src/protobuf/qprotobufmetaobject.h', TYPES], [('property ordering table', MDEF), ('property declarations', TPL)], ['QObject::property/setProperty, accessors, protobuf metadata'],
     technique='random values written through one view and read through the others', note='Random search over the fixed schema.')
prop('P12', 'Generated code compiles and is faithful for any supported schema',
     'For every proto3 schema in the supported subset (no oneof, optional, groups, repeated bool, singular recursion, names that are C++ keywords, macros or QObject members) the generator produces code that compiles and whose messages carry every declared field, under the documented naming rules, with encodings interchangeable with the reference implementation in both directions.',
     ['programs', 'inputs'], 'all proto3 files (messages, nested messages, enums, maps, imports, packages, comments, field numbering, naming) and all values',
     'The tests use about thirty fixed .proto files; generator output depends on combinations of schema features.',
     ['src/generator/generatorbase.cpp', GCOM, MDECL, MDEF, TPL, 'src/generator/singlefilegenerator.cpp', 'src/generator/utils.h'], [('type maps', GCOM), ('message printers', MDECL + ', ' + MDEF), ('templates', TPL)], ['compiler exit status of generated code, bytes and values of generated messages'],
     technique='random schema generation, code generation, compilation, then differential value testing against libprotobuf', note='A batch of random schemas per run (grammar-bounded); trusts g++, protoc and libprotobuf.')
prop('P13', 'Generation options never change message content or wire format',
     'Whatever combination of generation options is used (folders, QML support, comments, field enumeration, extra namespace, and one file per message for schemas within what that mode supports), the generated messages compile, offer the same fields and read and write identical bytes.',
     ['configurations', 'programs', 'inputs'], 'all option combinations, schemas and values',
     'The test suite fixes one option set per test project.',
     ['src/generator/generatoroptions.cpp', 'src/generator/multifilegenerator.cpp', 'src/generator/singlefilegenerator.cpp', MDECL, MDEF], [('option handling', 'src/generator/generatoroptions.cpp'), ('file layout', 'src/generator/multifilegenerator.cpp')], ['compilation, bytes and values'],
     technique='random option sets applied to a schema; metamorphic oracle: same bytes/values as the default options and libprotobuf', note='A batch of random (schema, option set) pairs per run.')
prop('P14', 'Generated gRPC clients address the right method with the right message',
     'Every remote procedure of a service definition has client methods in the generated class, and calling one sends exactly the given argument message to exactly the declared package-qualified service and method, as unary call or as stream as declared, and hands back the response of that call.',
     ['programs', 'inputs'], 'all service definitions (names, packages, imported types, unary/streaming mixes) and all argument values',
     'Tests use two fixed service definitions.',
     ['src/generator/clientdeclarationprinter.cpp', 'src/generator/clientdefinitionprinter.cpp', 'src/generator/servicedeclarationprinterbase.cpp', TPL], [('client printers', 'src/generator/clientdefinitionprinter.cpp'), ('service name', TPL)], ['channel calls made by the generated client'],
     technique='random service definitions generated, compiled and driven through a recording channel', note='A batch of random services per run.')
prop('P15', 'Qt core types survive conversion to their messages and back',
     'Every value of the supported Qt core types (url, char, uuid, time, date, local date-time, size, point, rectangle, polygon and the floating point variants) stored in a singular message field is encoded in the documented companion message so that any reader of it gets the same numbers or text and decoding yields an equal value, whatever else the message holds.',
     ['inputs'], 'all valid values of the supported Qt core types',
     'Tests use one or two fixed values per type.',
     ['src/qttypes/qtprotobufqttypes.cpp', 'src/qttypes/qtprotobufqttypes.h'], [('conversion functions', 'src/qttypes/qtprotobufqttypes.cpp')], ['field values after encode/decode'],
     technique='random Qt values; round trip and wire-level reference oracle', note='Random search.')
prop('P16', 'Qt GUI types survive conversion to their messages and back',
     'Every value of the supported Qt GUI types (8-bit RGBA colour, 4x4 matrix, 2/3/4-component vectors, transform, quaternion, image) stored in a message field is encoded in the documented companion message so that any reader of it gets the same numbers and decoding yields an equal value (images: the same pixels).',
     ['inputs'], 'all valid values of the supported Qt GUI types',
     'Tests use one or two fixed values per type.',
     ['src/qttypes/qtprotobufqttypes.cpp'], [('conversion functions', 'src/qttypes/qtprotobufqttypes.cpp')], ['field values after encode/decode'],
     technique='random Qt values; round trip and wire-level reference oracle', note='Random search.')
prop('P17', 'Well-known types interoperate with the reference implementation',
     'Messages of the google.protobuf well-known types read and write the standard encoding of those types, and converting a date-time to a timestamp and back gives the same instant to the millisecond for every instant.',
     ['inputs'], 'all values of the well-known types, all date-times',
     'Tests cover single fixed values.',
     ['src/generator/messagedefinitionprinter.cpp', 'src/wellknowntypes/CMakeLists.txt', SER], [('generated well-known types', 'src/wellknowntypes/CMakeLists.txt'), ('date-time conversion', 'src/generator/messagedefinitionprinter.cpp printConstructors')], ['bytes and values'],
     technique='random values; differential oracle libprotobuf; exact arithmetic model for date-times', note='Random search.')
prop('P18', 'Numeric wrapper types convert without changing the value',
     'The signed, fixed and plain protobuf integer types convert to and from the ordinary numeric types and their variants (QML numbers, strings) without changing any value that the target can represent, singly and in lists.',
     ['inputs'], 'all integer values of all wrapper types',
     'Tests convert a handful of values.',
     [TYPES, 'src/protobuf/qtprotobuf.cpp'], [('converter registration', 'src/protobuf/qtprotobuf.cpp'), ('wrapper template', TYPES)], ['QVariant conversions'],
     technique='random values through every registered conversion; exact arithmetic oracle', note='Random search.')
prop('P19', 'Serialization is safe to use from many threads',
     'Messages may be registered, serialized and deserialized concurrently from any number of threads, each on its own objects, including the very first use; every thread gets the same results as when run alone.',
     ['schedules'], 'all interleavings of registration, first use, encoding and decoding in several threads',
     'Interleavings are not controlled by tests; there is no threaded serialization test.',
     ['src/protobuf/qabstractprotobufserializer.cpp', SER, 'src/protobuf/qtprotobuf.cpp', 'src/protobuf/qprotobufserializerregistry.cpp'], [('handler registry locking', 'src/protobuf/qabstractprotobufserializer.cpp'), ('one-time handler table initialisation', SER)], ['results per thread, memory errors'],
     technique='random multi-thread programs (first use, shared or own serializers, concurrent registration), each in a fresh process under ASan; oracle: libprotobuf and the expected values per thread', note='Random programs under the schedules the OS gives; a race shows as wrong result, exception or memory error.')
prop('P20', 'The serializer registry finds serializers by name and fails safely',
     'Whatever sequence of lookups and plugin loads is made, with any identifiers and plugin names and any content of the plugin folder: a lookup returns the serializer registered under that identifier by that plugin (or built in), always the same one and working, and reports anything else as missing without crashing; loading returns the name of a valid plugin, the first plugin of a name stays, and missing or broken plugin files load nothing and harm nothing; the plugin information queries report what the plugin declares.',
     ['inputs', 'histories', 'fault_sequences'], 'all identifiers, plugin names, plugin directories and call sequences',
     'Tests look up two fixed identifiers and one plugin.',
     ['src/protobuf/qprotobufserializerregistry.cpp'], [('registry lookup and plugin loading', 'src/protobuf/qprotobufserializerregistry.cpp')], ['returned serializers'],
     technique='random sequences of lookups, loads and queries with hostile names over scratch plugin folders (real, foreign, truncated, garbage plugins), each in a fresh process; model-based oracle', note='Random search in a scratch directory.')
prop('P21', 'A unary call delivers exactly its own response, exactly once',
     'For any set of concurrent unary calls on one client, each completes exactly once, with the server response to its own request or with an error status, independent of the order and timing in which responses arrive; the blocking form returns the same result.',
     ['schedules', 'histories', 'inputs'], 'all request contents, numbers of concurrent calls, response orders and timings, on either channel implementation',
     'Tests make a few calls with fixed answers and timing.',
     ['src/grpc/qabstractgrpcclient.cpp', 'src/grpc/qabstractgrpcclient.h', 'src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qgrpcchannel.cpp', 'src/grpc/qgrpccallreply.cpp'], [('reply bookkeeping', 'src/grpc/qabstractgrpcclient.cpp call'), ('HTTP/2 unary calls', 'src/grpc/qgrpchttp2channel.cpp'), ('native unary calls', 'src/grpc/qgrpcchannel.cpp')], ['finished/error signals, response messages'],
     technique='model-based random call histories against a scripted network under the real HTTP/2 channel (interposed QNetworkAccessManager and clock); exactly-once and content oracle', note='Random search; HTTP/2: the network below QNetworkReply is simulated; native channel: in-process grpc++ server, real threads.')
prop('P22', 'Server streams deliver every message once, in order, to every subscriber',
     'Every message the server sends on a stream reaches every subscriber of that stream exactly once, in the order sent and with the content sent; subscribing to the same method with the same argument shares one underlying stream, different methods or arguments never mix, and cancelled streams deliver nothing further.',
     ['histories', 'schedules', 'inputs'], 'all message sequences, subscriber sets, subscription and cancellation orders',
     'Tests use one fixed short stream.',
     ['src/grpc/qabstractgrpcclient.cpp', 'src/grpc/qgrpcstream.cpp', 'src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qgrpcchannel.cpp'], [('stream sharing', 'src/grpc/qabstractgrpcclient.cpp stream'), ('handler fan-out', 'src/grpc/qgrpcstream.cpp')], ['messages seen by handlers and signals'],
     technique='model-based random subscription/message/fault histories against a scripted network and virtual clock under the real HTTP/2 channel', note='Random search; the network below QNetworkReply is simulated.')
prop('P23', 'Message framing is independent of how the network splits the data',
     'However the bytes of a response or stream are split into network chunks, including inside the length prefix, across message boundaries, one byte at a time or several messages at once, and for messages of any size including empty ones, the client sees exactly the messages that were sent.',
     ['inputs', 'schedules'], 'all message sequences and all partitions of the byte stream',
     'Tests rely on whatever chunking the loopback server happens to produce.',
     ['src/grpc/qgrpchttp2channel.cpp'], [('stream reassembly', 'src/grpc/qgrpchttp2channel.cpp stream')], ['messages seen by the application'],
     technique='random messages and random chunkings fed to the real HTTP/2 channel by a scripted network; oracle: the list of messages complete so far, checked after every chunk', note='Random search; the network below QNetworkReply is simulated.')
prop('P24', 'The status reported by the server reaches the application',
     'When the server ends a call with a status code and message, the application gets an error carrying exactly that code and message for every non-zero code and no error for zero; transport failures are reported as errors, never as successful responses.',
     ['inputs', 'fault_sequences'], 'all status codes, status messages, moments of failure and transport faults',
     'Tests cover two codes.',
     ['src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qgrpcchannel.cpp', 'src/grpc/qgrpcstatus.cpp', 'src/grpc/qabstractgrpcclient.cpp'], [('status mapping', 'src/grpc/qgrpchttp2channel.cpp'), ('status propagation', 'src/grpc/qabstractgrpcclient.cpp')], ['error signal, returned status'],
     technique='random statuses, messages and transport faults scripted on the network below the HTTP/2 channel; equality oracle; status objects as a random value history', note='Random search.')
prop('P25', 'Credentials are sent with every call',
     'Every call and stream made through an HTTP/2 channel carries the call credentials configured for it, each as a request header with the configured name and value, and channels with different credentials never mix them.',
     ['inputs', 'histories'], 'all credential maps and call sequences',
     'Tests use one fixed user/password pair.',
     ['src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qgrpccredentials.h', 'src/grpc/qgrpcuserpasswordcredentials.h'], [('request headers', 'src/grpc/qgrpchttp2channel.cpp post'), ('credential combination', 'src/grpc/qgrpccredentials.h')], ['headers received by the server'],
     technique='random credential maps and call histories; oracle: headers of the requests reaching the scripted network', note='Random search.')
prop('P26', 'Aborting, cancelling and destroying at any moment is safe',
     'Aborting a call, cancelling a stream, deleting replies, clients or channels, or dropping the last handle at any point of a call never crashes, never delivers results to the aborted operation and leaves the other operations unaffected; aborting what is already over has no effect.',
     ['histories', 'schedules', 'fault_sequences'], 'all operation sequences and all moments of abort, cancel and destruction',
     'Tests abort at one fixed moment.',
     ['src/grpc/qabstractgrpcclient.cpp', 'src/grpc/qgrpccallreply.cpp', 'src/grpc/qgrpcstream.cpp', 'src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qgrpcchannel.cpp'], [('abort and cancel', 'src/grpc/qgrpccallreply.cpp, qgrpcstream.cpp'), ('connection cleanup', 'src/grpc/qabstractgrpcclient.cpp')], ['signals, AddressSanitizer reports'],
     technique='random lifecycle histories (abort, cancel, drop, delete, switch channel, from outside and inside handlers) under ASan with a scripted network that reuses reply addresses at once', note='Random search.')
prop('P30', 'Requests are well-formed gRPC requests for exactly the given argument',
     'Every call and stream produces exactly one HTTP/2 POST request to the channel address, with the path of the package-qualified service and method, the gRPC content type and te header, a body that is one uncompressed length-prefixed frame holding exactly the encoded argument whatever its size, and offers only message encodings that the client can decode.',
     ['inputs'], 'all arguments, including empty and large ones, all methods, all call forms',
     'Tests check only that the bundled server answers a few small requests.',
     ['src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qabstractgrpcclient.cpp'], [('request construction', 'src/grpc/qgrpchttp2channel.cpp post')], ['requests reaching the network'],
     technique='random arguments and methods; oracle: independent parse of the request reaching the scripted network, server side picks any offered encoding', note='Random search.')
prop('P27', 'Clients may be called from other threads',
     'Calls and streams started, read or aborted from any thread are executed on the thread that owns the client, each exactly once and with the given argument; results, errors and stream messages reach receivers in the calling thread exactly once and unmixed, nothing is delivered after abort returned, and a channel of another thread is refused.',
     ['schedules'], 'all interleavings of calls, streams, reads and aborts of several threads with each other and with the client thread',
     'Two tests call once from one other thread.',
     ['src/grpc/qabstractgrpcclient.cpp', 'src/grpc/qgrpcasyncoperationbase_p.h', 'src/grpc/qgrpcstream.cpp', 'src/grpc/qgrpccallreply.cpp'], [('thread hand-over', 'src/grpc/qabstractgrpcclient.cpp call, stream'), ('locking of received data', 'src/grpc/qgrpcasyncoperationbase_p.h'), ('abort from another thread', 'src/grpc/qgrpcstream.cpp, qgrpccallreply.cpp')], ['thread of channel calls and signals, results in the calling threads'],
     technique='random programs of one to five threads against a client in its own thread with a recording channel, under ASan; exactly-once, content and thread oracle', note='Random programs under the schedules the OS gives. The channel answers a reply only after the caller subscribed to it: a later subscription would be a race of the caller.')
prop('P28', 'QML sees the current lists, streams and call results',
     'List properties exposed to QML always show exactly the items of the message property in order, and appending, clearing and assigning through them changes the message accordingly; a QML stream element has its stream open exactly while it is enabled and complete, follows changes of its client, method and argument, shows each message of the stream once and in order and reports its errors; a call made from script runs exactly one of its callbacks, or fills its result object, with the outcome of that call.',
     ['histories', 'inputs'], 'all sequences of list operations, property changes, stream messages, calls and deletions',
     'Tests exercise one short scripted sequence each.',
     ['src/protobuf/qqmllistpropertyconstructor.h', 'src/grpc/quick/qquickgrpcstream.cpp', 'src/grpc/quick/qquickgrpcstream_p.h', TPL], [('list property functions', 'src/protobuf/qqmllistpropertyconstructor.h'), ('stream element', 'src/grpc/quick/qquickgrpcstream.cpp'), ('script call forms', TPL + ' ClientMethodDefinitionQmlTemplate')], ['list views in C++ and script, stream element signals and properties, script callbacks'],
     technique='model-based random histories of list operations, stream elements and script calls in a real QML engine with a recording channel, under ASan', note='Random search. An object given to a list belongs to that list alone from then on.')
prop('P31', 'Completed operations leave nothing behind',
     'When a call or stream is over - answered, failed, timed out, aborted, cancelled or its client destroyed - and the application holds no handle of it any more, its handlers and everything they captured, its reply or stream object and its exchange with the server are released, without waiting for the client or the channel to be destroyed; operations still in flight keep theirs.',
     ['histories'], 'all sequences of calls (blocking, reply, callback), streams, outcomes, aborts, dropped handles and destroyed clients',
     'Tests end before anything left behind matters; nothing counts objects.',
     ['src/grpc/qabstractgrpcclient.cpp', 'src/grpc/qgrpchttp2channel.cpp', TPL], [('connections released at completion', 'src/grpc/qabstractgrpcclient.cpp call, stream'), ('end of the network exchange', 'src/grpc/qgrpchttp2channel.cpp'), ('callback forms', TPL + ' ClientMethodDefinitionAsync2Template')], ['life time of objects captured in handlers, of network exchanges'],
     technique='random operation histories on a scripted network; oracle: life-time tokens captured by every handler and liveness of every exchange against the model of what is in flight', note='Random search.')
prop('P32', 'Invalid responses are reported and harm nothing else',
     'Whatever body and status headers a server sends for a call, the call ends exactly once: with the sent message if the status is OK and the body is exactly one complete uncompressed message that decodes, and with an error otherwise (an asynchronous reply whose message does not decode reports the error when it is read). A stream message that does not decode is reported as an error of the client, and the messages after it still arrive. Nothing crashes, and the other operations of the client are not affected.',
     ['inputs', 'fault_sequences'], 'all response bodies, chunkings and status headers, all call forms',
     'Tests talk to one well-behaved server only.',
     ['src/grpc/qgrpchttp2channel.cpp', 'src/grpc/qabstractgrpcclient.h', 'src/grpc/qgrpcasyncoperationbase_p.h'], [('response processing', 'src/grpc/qgrpchttp2channel.cpp processReply'), ('decoding of responses', 'src/grpc/qabstractgrpcclient.h tryDeserialize')], ['completion, status and values seen by the application'],
     technique='mutation fuzzing of response bodies, payloads and status headers on a scripted network under ASan; oracle: independent framing check and the message class alone', note='Random search. A response with status OK and no message at all may be reported either way.')
prop('P29', 'JSON encoding round-trips and follows the proto3 JSON mapping',
     'Serializing a message to JSON and back gives an equal message and the text follows the proto3 JSON mapping.',
     ['inputs'], 'all messages', 'JSON tests use fixed values.',
     ['src/protobuf/qprotobufjsonserializer.cpp'], [('JSON serializer', 'src/protobuf/qprotobufjsonserializer.cpp')], ['JSON text and decoded values'],
     na='The JSON serializer cannot be built in this sandbox: its parser (git submodule src/protobuf/3rdparty/jsonparser) is empty and there is no network, so there is no code to run generated inputs against.')


def main():
    from table import TABLE
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=None))
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        if p['na'] or p['id'] not in TABLE:
            na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
            continue
        checks.append(dict(property=p['id'], quick_cmd='python3 pbt/run.py %s --tier quick' % p['id'], thorough_cmd='python3 pbt/run.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']))
    m = dict(version=1, setup_cmd='python3 pbt/setup.py', hooks=dict(guard='none', enable='no hooks are needed: the checks use the public API of the unmodified sources', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='Every check builds /repo into /verif/.build and runs generated-input search with an explicit oracle; see DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
