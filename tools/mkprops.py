#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     hook_needed=None, **kw)))


prop('C01', 'AMF0 round trip preserves values, sharing and cycles',
     'Any encodable graph of Python values (scalars, text, dates, XML, lists, tuples, dicts, mixed arrays, registered class instances, classic classes, list subclasses, values sent in AMF3 mode) decodes from its AMF0 bytes to an equal graph with the same sharing and the same cycles. Encoding does not modify the graph, and several values written by one encoder share one reference table on both sides.',
     ['inputs', 'programs'], 'every graph up to the node/slot bounds, every scalar of a boundary alphabet in every container position, every short text sequence, sizes around every length boundary',
     'reference numbering goes wrong only for particular combinations of referenceable values before the reference; tests sample a handful of graphs',
     ['pyamf/amf0.py', 'pyamf/codec.py', 'pyamf/util/__init__.py'],
     [('object reference table', 'pyamf/codec.py IndexedCollection, Context'), ('AMF0 encoder', 'pyamf/amf0.py Encoder.write*'), ('AMF0 decoder', 'pyamf/amf0.py Decoder.read*')])
prop('C02', 'AMF3 round trip preserves values, sharing and cycles',
     'Any encodable graph of Python values, byte arrays and registered class instances decodes from its AMF3 bytes to an equal graph with the same sharing and the same cycles, whatever mix of string, object and trait references the encoder chooses. Encoding does not modify the graph, and several values written by one encoder share one set of reference tables on both sides.',
     ['inputs', 'programs'], 'every graph up to the node/slot bounds, every scalar of a boundary alphabet in every container position, every short text sequence, sizes around every length boundary',
     'three interacting reference tables (strings, objects, traits) only go wrong for particular combinations of values',
     ['pyamf/amf3.py', 'pyamf/codec.py'],
     [('string table', 'pyamf/codec.py ByteStringReferenceCollection'), ('trait table', 'pyamf/amf3.py Context.addClass/getClass, ClassDefinition'), ('AMF3 codec', 'pyamf/amf3.py Encoder, Decoder')])
prop('C03', 'The bytes on the wire conform to the AMF0 and AMF3 specifications',
     'What the encoder writes for any value is a valid encoding of exactly that value for an independent reader written from the AMF0 and AMF3 specifications. Conversely every encoding such an independent writer may choose for a value (with or without string and trait references, sealed or dynamic members, dense or associative arrays, integer or double numbers) decodes to that value.',
     ['inputs', 'programs'], 'every bounded graph times every combination of encoding choices of the reference writer',
     'a symmetric mistake in encoder and decoder passes every round trip test while breaking interoperability',
     ['pyamf/amf0.py', 'pyamf/amf3.py'],
     [('type markers and layouts', 'pyamf/amf0.py, pyamf/amf3.py read*/write*'), ('traits', 'pyamf/amf3.py Decoder._getClassDefinition, Encoder.writeObject')])
prop('C04', 'AMF3 integers are exact at every boundary',
     'Every integer in the signed 29-bit range is written in the shortest variable length form the AMF3 specification gives and reads back unchanged; every integer outside it is sent as a double and reads back as the same number (to double precision). Results depend only on the value, never on which integers were encoded before, and out of range raw encodings are refused.',
     ['inputs', 'histories'], 'all integers within a window around every power of two and every length boundary, all 1-2 byte and a dense set of 3-4 byte forms, all ordered pairs of a collision alphabet',
     'there are 2^29 values and a shared cache: tests check some twenty of them in one order',
     ['pyamf/amf3.py'],
     [('integer codec', 'pyamf/amf3.py encode_int, decode_int, ENCODED_INT_CACHE'), ('promotion to double', 'pyamf/amf3.py Encoder.writeInteger')])
prop('C05', 'Encoding and decoding do not depend on what happened before',
     'The bytes produced for a value and the value produced for bytes are the same in a fresh process, after any sequence of earlier encodings and decodings (including ones that failed), and with a context that was cleared. Caches and lazily compiled class descriptions are invisible.',
     ['histories'], 'every sequence up to the depth bound over an alphabet of encode and decode operations that share caches, classes and failing inputs, followed by every probe',
     'caches shared by the whole process are only wrong after particular histories; tests run each operation from a clean state',
     ['pyamf/codec.py', 'pyamf/amf3.py', 'pyamf/alias.py', 'pyamf/__init__.py'],
     [('integer cache', 'pyamf/amf3.py ENCODED_INT_CACHE'), ('class cache', 'pyamf/__init__.py CLASS_CACHE'), ('alias compilation', 'pyamf/alias.py ClassAlias.compile'), ('context', 'pyamf/codec.py Context.clear')])
prop('C06', 'Incremental decoding gives the same values for every chunking',
     'Feeding a stream of values to a decoder in pieces, asking for the next value after each piece, yields exactly the values of decoding the stream in one go, in order, each once. An incomplete value is reported as such and is delivered complete and correct once the rest has arrived, wherever the stream was cut, and references keep pointing at the right values. In the other direction, an encoder yields the encoding of each element that was sent to it, in order, each once.',
     ['histories', 'inputs'], 'every single cut and every pair of cuts of every stream in the alphabet, with a poll after each piece',
     'a cut can fall inside any length, string, reference or nested container; tests feed whole values',
     ['pyamf/codec.py', 'pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/util/pure.py'],
     [('generator interface', 'pyamf/codec.py Decoder.send, next, _readElement'), ('stream append', 'pyamf/util/pure.py BufferedByteStream.append')])
prop('C07', 'Malformed and truncated input is refused, never misread',
     'For every byte string, decoding either yields what the format defines for those bytes or raises a decoding error; no truncation of a valid stream is accepted as complete, and references to values that do not exist are refused. Refusal is by an exception of the documented families, never a hang, a crash of the runtime or a silently wrong value.',
     ['inputs', 'crash_points'], 'every byte string up to a length over an alphabet of markers, lengths and reference forms, every proper prefix and every single byte substitution of valid streams',
     'the space of malformed input is the whole space of byte strings; tests try a few markers',
     ['pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/codec.py', 'pyamf/util/pure.py'],
     [('end of stream', 'pyamf/codec.py Decoder._readElement'), ('reference lookups', 'pyamf/amf3.py Decoder.readArray/readObject/readString..., pyamf/amf0.py Decoder.readReference')])
prop('C08', 'The byte stream behaves like a file in memory',
     'Under every sequence of write, read, seek, truncate, append, consume, peek, remaining, at_eof, length and position operations the in-memory byte stream holds the bytes and the position of a simple model (a byte sequence and a cursor). Reads that would pass the end are refused and leave position and contents unchanged.',
     ['histories'], 'all operation sequences up to the depth bound over small arguments, deduplicated by (contents, position)',
     'the length is cached and the position is moved temporarily by several operations; only sequences of operations expose staleness',
     ['pyamf/util/pure.py'],
     [('buffer', 'pyamf/util/pure.py BytesIOProxy, BufferedByteStream')])
prop('C09', 'Fixed size numbers and strings are read and written exactly',
     'For every byte order, each integer width writes exactly the representable values, refuses all others with an overflow or type error without writing anything, and reads back what it wrote; floats, doubles (including infinities and not-a-number) and UTF-8 strings do so too. The bytes equal the two\'s complement and IEEE 754 encodings.',
     ['inputs', 'configurations'], 'all byte orders x all 8 and 16 bit values, all windows around the limits of 24 and 32 bit values, boundary doubles',
     'tests sample a few values per type in default byte order',
     ['pyamf/util/pure.py'],
     [('data types', 'pyamf/util/pure.py DataTypeMixIn.read_*/write_*')])
prop('C10', 'ByteArray behaves like the ActionScript byte array',
     'Every sequence of typed reads and writes, seeks, truncation and compression switches on a byte array agrees with a simple model; the bytes, their compression state and the objects written into it survive encoding and decoding. Values that are out of range or of the wrong type are refused.',
     ['histories'], 'all operation sequences up to the depth bound over the DataInput/DataOutput operations with boundary arguments',
     'reads, writes, position and compression interact; tests exercise each alone',
     ['pyamf/amf3.py', 'pyamf/util/pure.py'],
     [('byte array', 'pyamf/amf3.py ByteArray, DataInput, DataOutput')])
prop('C11', 'Declared attribute rules decide exactly what is encoded and applied',
     'For every combination of static, excluded, read-only, dynamic, synonym and proxied attributes, slots, properties and inheritance, excluded attributes are never sent nor applied, read-only ones are sent but never applied, sealed classes send and accept only declared attributes, synonyms rename in both directions, static attributes are always sent, and everything else passes unchanged. The result is the same in AMF0 and AMF3 and does not depend on the order of declaration or of the bases.',
     ['configurations', 'inputs'], 'every assignment of rules to a small set of attributes on one class and over two levels of inheritance, times every subset of present attributes',
     'the rules interact through several shortcuts chosen at compile time of the class description; tests cover single rules',
     ['pyamf/alias.py', 'pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/util/__init__.py'],
     [('compilation and inheritance', 'pyamf/alias.py ClassAlias.compile, _compile_base_class, _finalise_compile'), ('filters', 'pyamf/alias.py getEncodableAttributes, getDecodableAttributes, applyAttributes')])
prop('C12', 'The class registry stays consistent under any history',
     'After every sequence of registering, unregistering and loading classes, class and alias lookups agree with a simple two-way map: a name decodes to the class last registered under it, a class is sent under the name last given to it, invalid registrations are refused without side effects, and removing a registration removes it under both its name and its class and nothing else. Instances of unknown classes decode to typed objects that keep their class name and attributes, or are refused in strict mode.',
     ['histories'], 'all operation sequences up to the depth bound over two or three classes and aliases, in strict and lenient mode and with class loaders',
     'two keys share one cache, so only sequences of registrations can leave half of an entry behind',
     ['pyamf/__init__.py', 'pyamf/alias.py', 'pyamf/util/__init__.py'],
     [('registry', 'pyamf/__init__.py register_class, unregister_class, get_class_alias, load_class, register_class_loader')])
prop('C13', 'Custom type mappings apply to exactly the values they match',
     'A registered type, tuple of types or predicate decides per value, independent of which values were encoded before with the same encoder, and the mapped result is encoded as if it had been given directly; removing the mapping restores the previous behaviour. The bundled adapters (collections, decimals, arrays, weak references, sets) encode the plain equivalent of their values.',
     ['configurations', 'histories'], 'all sequences of values of several classes times all registrations of types, tuples and predicates up to the bound',
     'the choice is cached per Python type inside an encoder; only sequences of different values with one encoder show it',
     ['pyamf/codec.py', 'pyamf/__init__.py', 'pyamf/adapters'],
     [('dispatch', 'pyamf/codec.py Encoder.getTypeFunc, writeElement'), ('type map', 'pyamf/__init__.py add_type, get_type, remove_type')])
prop('C14', 'Remoting envelopes survive encoding and decoding',
     'Any envelope (version, headers with and without the required flag, any number of requests or responses with any names, identifiers, statuses and bodies) decodes from its encoding to the same envelope; counts and lengths on the wire are those of the content. An envelope is a collection of messages by name, in order, and two envelopes or messages are equal exactly if they hold the same. References never leak from one header or body to another, and a truncated or corrupted packet is refused.',
     ['inputs', 'configurations', 'crash_points'], 'all envelopes up to 2 headers and 3 messages over alphabets of names, ids, statuses and bodies in both AMF versions, and every prefix of each packet',
     'lengths are patched in after the fact and contexts are reused between bodies; tests use one or two bodies',
     ['pyamf/remoting/__init__.py'],
     [('envelope codec', 'pyamf/remoting/__init__.py decode, encode, _read_header, _write_header, _read_body, _write_body')])
prop('C15', 'A gateway answers every request of a batch exactly once',
     'For every batch of requests, well formed or not, the gateway returns one response per request, in the order of the request packet and under the same identifier, and a failure of one request (unknown service, exception in the service, unreadable arguments, an exception that cannot be printed, a result that cannot be encoded) is reported in its own response and does not affect the others. Undecodable packets are answered with a client error and never reach a service.',
     ['inputs', 'fault_sequences'], 'all batches up to 3 requests over an alphabet of succeeding and failing calls in AMF0 and AMF3 form, over the WSGI and Django front ends, and every prefix of a packet',
     'isolation between the members of a batch only shows for particular combinations of failures',
     ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/gateway/wsgi.py', 'pyamf/remoting/gateway/django.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'],
     [('dispatch', 'pyamf/remoting/amf0.py RequestProcessor, pyamf/remoting/amf3.py RequestProcessor'), ('front ends', 'WSGIGateway, DjangoGateway')])
prop('C16', 'A gateway runs only what it exposes, after authentication',
     'A service method runs only if its service is registered, the name is exposed and public, and the authenticator that applies (of the method, the service or the gateway, in that order) accepted the credentials of the request; preprocessors run after it and before the call, and see the arguments of RemoteObject requests. No request, in AMF0 or AMF3 form, reaches anything else, and adding or removing services takes effect for the next request.',
     ['configurations', 'inputs', 'histories'], 'all combinations of authenticator, exposure and preprocessor placement at three levels, all service paths over an alphabet including private, nested and dunder names, all credential outcomes',
     'the guard is a chain of inherited settings and two protocol paths; tests cover single combinations',
     ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'],
     [('service lookup', 'pyamf/remoting/gateway/__init__.py ServiceWrapper, ServiceRequest, getServiceRequest'), ('authentication', 'BaseGateway.authenticateRequest, getAuthenticator, getPreprocessor')])
prop('C17', 'Each client call receives its own result',
     'Whatever the order and grouping in which calls are queued, executed, removed and answered, each call object receives the answer with its own identifier and no other; faults become the mapped exception, headers are sent exactly as set, and unanswered or malformed replies raise instead of delivering a wrong result.',
     ['histories', 'fault_sequences'], 'all sequences up to the depth bound of add, remove, execute and header operations, times all permutations and omissions of the answers and transport errors',
     'identifiers, the queue and the headers are client state changed by every call; tests make one call',
     ['pyamf/remoting/client/__init__.py', 'pyamf/remoting/__init__.py'],
     [('request queue', 'pyamf/remoting/client/__init__.py RemotingService.addRequest, removeRequest, execute, execute_single'), ('faults', 'pyamf/remoting/__init__.py BaseFault.raiseException, get_exception_from_fault')])
prop('C18', 'Shared objects survive saving, and torn files are refused',
     'A local shared object saved to a file and loaded again has the same name, values and encoding, in AMF0 and AMF3. Every truncation of such a file, and every change of its header or length, is refused with an error instead of being loaded as a smaller or different object, and the file is closed whatever happens.',
     ['inputs', 'crash_points'], 'all objects up to the bound over names and values x both encodings, every prefix (crash point while saving) and every header byte change',
     'a crash can leave any prefix; tests load complete files',
     ['pyamf/sol.py'],
     [('file format', 'pyamf/sol.py decode, encode, load, save')])
prop('C19', 'Flex messages keep every field in both their forms',
     'Every Flex message (acknowledge, async, command, remoting, error, and the small forms of the first three) decodes from its encoding with every field it was given, including empty and zero values, ids, timestamps and headers. The small form carries the same information as the full form.',
     ['inputs', 'configurations'], 'all subsets of fields over an alphabet of values including falsy ones, in small and full form and both AMF versions',
     'the small form packs presence into flag bytes: 2^n combinations, of which tests check a few',
     ['pyamf/flex/messaging.py', 'pyamf/flex/data.py'],
     [('flag bytes', 'pyamf/flex/messaging.py AbstractMessage._readamf/_writeamf, AsyncMessage, CommandMessage, AcknowledgeMessage'), ('small forms', 'getSmallMessage')])
prop('C20', 'Collections and proxies behave like what they wrap',
     'Under every sequence of operations an array collection agrees with a plain list and its documented index errors, and it and object proxies survive encoding in both AMF versions. With proxying enabled, every list and dictionary is wrapped on the wire and unwrapped on decoding, to the same graph.',
     ['histories', 'inputs'], 'all operation sequences up to the depth bound, and all bounded graphs with proxying on',
     'wrapping keeps two identities per object in a table; tests wrap single values',
     ['pyamf/flex/__init__.py', 'pyamf/amf3.py', 'pyamf/codec.py'],
     [('array collection', 'pyamf/flex/__init__.py ArrayCollection, ObjectProxy, proxy_object, unproxy_object'), ('proxy table', 'pyamf/amf3.py Context.getProxyForObject, getObjectForProxy')])
prop('C21', 'XML with DTDs or entities is refused on every path by default',
     'Every way XML enters through the decoders (AMF0, AMF3, both AMF3 XML types, AMF3 inside AMF0, remoting packets, shared objects, nested in containers) refuses documents that declare a DTD or entities unless explicitly allowed, and parses all others to the same document. An explicit permission applies to every path of the decoder it was given to and to no other.',
     ['inputs', 'configurations'], 'all documents of a grammar of DTD, entity and benign constructs x all entry paths x all settings x all XML back ends available',
     'there are many entry paths and each must pass the settings on; tests check two',
     ['pyamf/xml.py', 'pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/codec.py', 'pyamf/remoting/__init__.py', 'pyamf/sol.py'],
     [('parsing', 'pyamf/xml.py fromstring'), ('settings', 'pyamf/codec.py Context.forbid_dtd, forbid_entities')])
prop('C22', 'Post-import hooks run exactly once per module',
     'A hook registered for a module runs exactly once, with that module, immediately if it is already loaded and otherwise when it is first imported, whatever the order of registrations and imports, nesting of imports, failing imports and reloads. Imports behave as without the finder.',
     ['histories', 'fault_sequences'], 'all sequences up to the depth bound of registering hooks and importing over module graphs with nested, circular and failing imports',
     'the finder keeps a stack of modules being loaded; only nested and failing imports expose its order',
     ['pyamf/util/imports.py', 'pyamf/adapters/__init__.py'],
     [('module finder', 'pyamf/util/imports.py ModuleFinder')])
prop('C23', 'Concurrent use gives the results of sequential use',
     'Threads that encode, decode, look up and first use registered classes, integers and XML at the same time each obtain what they would obtain alone, in every interleaving. Shared caches and lazily built class descriptions are never observed half built.',
     ['schedules'], 'all interleavings at source line granularity of two threads up to the preemption bound, for every pair of operations of the alphabet, from a cold and a warm start',
     'a race needs one particular switch point; tests are single threaded',
     ['pyamf/alias.py', 'pyamf/codec.py', 'pyamf/amf3.py', 'pyamf/__init__.py', 'pyamf/xml.py', 'pyamf/remoting'],
     [('lazy compilation', 'pyamf/alias.py ClassAlias.compile'), ('shared caches', 'pyamf/__init__.py CLASS_CACHE, pyamf/amf3.py ENCODED_INT_CACHE, pyamf/xml.py types')])
prop('C24', 'Dates keep their instant in every format and offset',
     'A date or date and time reads back as the same instant to the precision of the format, before and after 1970, over the whole supported range; with a timezone offset configured, encoding subtracts and decoding adds exactly that offset, in AMF0, AMF3, AMF3 inside AMF0 and remoting. The value given to the encoder is unchanged and times of day are refused.',
     ['inputs', 'configurations'], 'all calendar boundaries x sub-second values x offsets x formats and positions',
     'the conversion goes through several units and signs; tests check a few recent dates',
     ['pyamf/util/__init__.py', 'pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/codec.py', 'pyamf/remoting/__init__.py'],
     [('conversion', 'pyamf/util/__init__.py get_timestamp, get_datetime'), ('offset', 'writeDate/readDate of both codecs')])
prop('C25', 'Post-decode processors see every decoded value exactly once',
     'Every registered processor is called exactly once for each top level value, in order of registration, each receiving the result of the previous one, never for nested values and never for incomplete or refused ones, and its result is what the caller gets.',
     ['histories', 'configurations'], 'all streams of the alphabet x all chains of processors up to the bound x entry points',
     'nesting depth is tracked by a counter that errors and nested decoders can unbalance',
     ['pyamf/codec.py', 'pyamf/__init__.py'],
     [('finalise', 'pyamf/codec.py Decoder.readElement, finalise'), ('registration', 'pyamf/__init__.py add_post_decode_processor')])
prop('C26', 'Errors and record sets survive the trip to the client',
     'An exception raised by a service reaches the client as the exception class registered for its code, with its message, in both AMF versions; unregistered ones arrive as the generic remoting error. Calls of services or methods that do not exist are reported as such whatever their name. Registering and removing error classes behaves as a map from codes to classes under every history, and record sets arrive with the same columns, rows, id and service.',
     ['histories', 'inputs'], 'all registration histories up to the depth bound x all exception classes and messages of the alphabet; all record sets up to 2 columns and 3 rows',
     'mapping depends on registration history and on the text of messages; tests use one class and ASCII messages',
     ['pyamf/__init__.py', 'pyamf/remoting/__init__.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py', 'pyamf/amf0.py'],
     [('error map', 'pyamf/__init__.py add_error_class, remove_error_class'), ('fault building', 'pyamf/remoting/amf0.py build_fault, pyamf/remoting/amf3.py generate_error'), ('record set', 'pyamf/amf0.py RecordSet')])
prop('C27', 'Externalizable classes read back exactly what they wrote',
     'For every sequence of typed writes a class makes to the output it is given, the same sequence of reads returns the same values, inside any surrounding graph and with references crossing the boundary in both directions. What follows the object in the stream is unaffected, and repeated instances use the class description once.',
     ['programs', 'inputs'], 'all programs of up to 3 typed writes over the operations of DataOutput with boundary arguments, placed in several surrounding graphs',
     'the class shares the stream and the reference tables with the codec; tests use one fixed class',
     ['pyamf/amf3.py', 'pyamf/alias.py'],
     [('external objects', 'pyamf/amf3.py Encoder.writeObject, Decoder.readObject, DataInput, DataOutput'), ('checks', 'pyamf/alias.py ClassAlias._checkExternal')])
prop('C28', 'Asynchronous services answer every request under its own identifier',
     'In the asynchronous gateway every request of a batch is answered exactly once under its own identifier, in AMF0 and AMF3, for every order in which the services finish, succeed or fail. Authentication and preprocessing that finish later still precede the call, in both versions, and a result that can not be encoded fails only its own request.',
     ['schedules', 'fault_sequences'], 'all completion orders and outcomes of up to 3 deferred results per batch, and of deferred authenticators and preprocessors',
     'results arrive in any order; tests complete them at once',
     ['pyamf/remoting/gateway/twisted.py'],
     [('deferred processing', 'pyamf/remoting/gateway/twisted.py TwistedGateway, AMF0RequestProcessor, AMF3RequestProcessor')])
prop('C29', 'Django models keep their fields, relations and identity',
     'A Django model instance is sent with the value of each of its fields, the related objects that are loaded and no others, and reads back as an instance of its class with the same values: an existing row takes what was sent and keeps the rest, a new one stays unsaved. All instances of one row in a graph are one object on the wire, different rows never are, and encoding runs no queries and changes nothing.',
     ['inputs', 'object_graphs', 'configurations'], 'all combinations of field values of the alphabet x primary keys; all graphs of two related instances with every relation unset, unloaded, empty or shared, over three classes; all subsets of sent fields',
     'identity is by class and primary key and depends on what was encoded before; tests encode single instances',
     ['pyamf/adapters/_django_db_models_base.py', 'pyamf/adapters/_django_db_models_fields.py', 'pyamf/adapters/_django_db_models_query.py', 'pyamf/adapters/_django_contrib_auth_models.py', 'pyamf/adapters/_django_utils_translation.py'],
     [('model alias', 'pyamf/adapters/_django_db_models_base.py DjangoClassAlias'), ('identity', 'pyamf/adapters/_django_db_models_base.py DjangoReferenceCollection, writeDjangoObject'), ('query sets', 'pyamf/adapters/_django_db_models_query.py')])
prop('C30', 'Datastore entities keep their key, properties and references',
     'App Engine entities (ext.db and ext.ndb) are sent with their key and the value of each declared and dynamic property, unchanged by being sent; all instances of one entity in a value are one object. They read back as entities of their class: with a stored key what was sent replaces what is stored and the rest is kept, without one they are new; references, also mutual ones and those to entities that are gone, keep their targets, and values of one stream do not affect each other. Handlers of model properties apply by the closest registered class, whatever was handled before.',
     ['inputs', 'object_graphs', 'histories'], 'all combinations of property values of the alphabet x new/keyed/stored; all subsets of sent properties; all graphs of two entities with every reference unset, dangling, lazy or shared; all streams of up to 3 values; all histories of up to 4 registrations and uses of handlers',
     'references are resolved after decoding, by key, from shared collections; the tests need the SDK and are skipped here',
     ['pyamf/adapters/gae_base.py', 'pyamf/adapters/_google_appengine_ext_db.py', 'pyamf/adapters/_google_appengine_ext_ndb.py', 'pyamf/adapters/models.py', 'pyamf/adapters/_google_appengine_ext_blobstore.py', 'pyamf/adapters/_google_appengine_api_datastore_types.py'],
     [('stubs', 'pyamf/adapters/gae_base.py StubCollection, EntityReferenceCollection'), ('aliases', 'DataStoreClassAlias, NDBClassAlias'), ('handlers', 'pyamf/adapters/models.py')])

prop('C31', 'Mapped objects keep what is loaded and what is not',
     'Objects mapped by SQLAlchemy (and Elixir entities) are sent with the value of every mapped attribute and property, loaded on demand, along with their primary key as sa_key and the names of what is not loaded as sa_lazy; internal state, foreign keys and row types of Elixir entities are not sent, and being sent marks nothing as modified. Decoding makes an instance through the mapper, without calling __init__: what is named by sa_lazy is neither on the object nor marked as changed, everything else that was sent is set and is exactly what is marked as changed; sa_key and sa_lazy themselves are not attributes of it. Related objects keep sharing and cycles, and the collections of relations (lists, dicts, sets) are sent as such.',
     ['inputs', 'object_graphs', 'histories'], 'all combinations of values x all subsets of loaded attributes; all subsets of sent x lazy attributes, with and without values; all wirings of two objects and two related ones, loaded or not; all collections of up to 3 items',
     'the state of a mapped object is in what is not there: attributes that are not loaded; the tests need the libraries and are skipped here',
     ['pyamf/adapters/_sqlalchemy_orm.py', 'pyamf/adapters/_sqlalchemy_orm_collections.py', 'pyamf/adapters/_elixir.py'],
     [('alias', 'pyamf/adapters/_sqlalchemy_orm.py SaMappedClassAlias'), ('elixir', 'pyamf/adapters/_elixir.py ElixirAdapter'), ('collections', 'pyamf/adapters/_sqlalchemy_orm_collections.py')])

prop('C32', 'A gateway reveals where something failed in debug mode only',
     'Unless a gateway is in debug mode, no answer of it, in either protocol and whatever failed at whichever stage (reading the packet, finding, guarding or calling the service, writing the result, the gateway itself), holds a traceback or any position in the source; headers never do. In debug mode every error that an exception caused comes with its traceback. The mode is that of the gateway at the time of the request, off by default (for Django, that of the settings unless it is given).',
     ['inputs', 'configurations', 'fault_sequences'], 'all 65 kinds of requests x 12 settings of the guards x strictness x debug mode x 4 front ends, batches of two, every prefix and byte change of a packet, a failure at each stage, all sequences of 4 changes of the mode',
     'each front end and both protocols have error paths of their own, a dozen places decide; tests look at a few',
     ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/gateway/wsgi.py', 'pyamf/remoting/gateway/django.py', 'pyamf/remoting/gateway/google.py', 'pyamf/remoting/gateway/twisted.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'],
     [('faults', 'pyamf/remoting/amf0.py build_fault, pyamf/remoting/amf3.py generate_error'), ('front ends', 'WSGIGateway, DjangoGateway, WebAppGateway, TwistedGateway')])

if __name__ == '__main__':
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open('properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
