#!/opt/veriftools/pyvenv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=()):
    P.append((pid, title, statement, over, text, why, files, mech, note, observe))


prop('P01', 'Simple values survive being written to XML and read back',
     'Every value that a field of a built-in simple type (string, boolean, all integer types, decimal, double, float, date, dateTime, time) accepts is written to XML, '
     'as an element or as an attribute, in a form that is legal for the type and that reads back as an equal value, fractions of a second and UTC offsets included (a dateTime or time without offset counts as UTC).',
     ['inputs'], 'all values of each built-in simple type, both placements, every whole-minute UTC offset',
     'Tests write and read a few dozen sample values; year padding, negative offsets of dates, boolean 1/0 and scientific notation slip between the samples.',
     ['soapfish/xsd.py', 'soapfish/xsd_types.py', 'soapfish/utils.py'],
     [('xmlvalue/pythonvalue of each type', 'soapfish/xsd.py'), ('dates with offsets', 'soapfish/xsd_types.py XSDDate'), ('offset text', 'soapfish/utils.py timezone_offset_to_string')],
     'strings up to 5 characters, 12 digit decimals, all calendar dates')
prop('P02', 'XML text is read as the value the XML Schema standard gives it',
     'Text in an element or attribute that is a legal boolean, integer, decimal, date, dateTime or time is read as exactly the value it denotes, and text that is not a legal form '
     'of the type (impossible dates, digits or letters too many, out of the range of the integer type) raises an error instead of giving some other value.',
     ['inputs'], 'every text of the bounded shapes: all legal layouts with every digit and sign, and each of these with one character changed, inserted or removed',
     'Tests read a handful of legal texts and two or three illegal ones per type; the lexical spaces are infinite and nearly-legal text is where parsers go wrong.',
     ['soapfish/xsd.py', 'soapfish/xsd_types.py'],
     [('pythonvalue of each type', 'soapfish/xsd.py'), ('date text', 'soapfish/xsd.py Date.pythonvalue'), ('zone parsing', 'soapfish/xsd.py, iso8601')],
     'texts up to 5 characters for numbers, all digits of the legal layouts for dates and times')
prop('P03', 'Restricted types accept exactly the values their facets allow',
     'A value enters an object (by assignment, constructor, list append, or from the elements and attributes of a document) exactly when it satisfies every facet of its type: length, '
     'minLength, maxLength, pattern (the whole value), enumeration, the four inclusive and exclusive bounds, totalDigits, fractionDigits, and the range of the built-in integer types; otherwise ValueError is raised. '
     'The whiteSpace facet replaces or collapses XML white space before the other facets are judged. Facets act alike whether given as constructor arguments, as class members, or as text.',
     ['inputs', 'configurations'], 'all facet settings within the bounds times all values within the bounds times every route into an object',
     'Tests try one or two values per facet; boundary values, zero facets, combinations, other routes and exactness beyond float precision are not sampled.',
     ['soapfish/xsd.py'], [('facet checks', 'soapfish/xsd.py String.accept, Decimal/Integer.accept, SimpleType.accept'), ('white space', 'soapfish/xsd.py String')],
     'strings up to 4 characters, integers below 10**22, decimals of 7 digits')
prop('P04', 'Objects written to XML and read back are the same objects',
     'Writing an object of any declared type (attributes, elements, lists, nested objects, groups and attribute groups, inherited fields, custom tag names, nil values) to XML and parsing it '
     'gives an object whose every field equals the original: absent stays absent, nil stays nil, lists keep length and order, and nothing moves to another field. '
     'This holds for documents without namespace, with unqualified and with qualified local elements, and content that no field declares is ignored.',
     ['inputs', 'programs'], 'object shapes nested to depth 3, lists of up to 3 items, every presence pattern, symbolic field values, three namespace modes',
     'Tests round-trip a few fixed objects; presence patterns, nil in lists, same-named fields at different levels and namespace modes multiply beyond samples.',
     ['soapfish/xsd.py'], [('render and parse of fields', 'soapfish/xsd.py Element, ListElement, Attribute, Ref, ComplexType'), ('field to tag matching', 'soapfish/xsd.py ComplexType._find_subelement')],
     'depth 3, lists up to 3, texts up to 2 characters')
prop('P05', 'Written XML follows the declared layout',
     'The XML written for an object has its elements in declaration order (inherited fields first, group members in place), under their declared tag names and in the namespace that the form default and the field demand, '
     'with attributes as attributes; absent optional fields leave no trace, nil is written as xsi:nil, and lists write one element per item in order. '
     'Writing an object that lacks a required attribute, or whose list has fewer items than its minimum, raises an error; writing never changes the object.',
     ['inputs', 'programs'], 'object shapes of up to 8 fields, every presence pattern, symbolic occurrence limits, three namespace modes',
     'Tests compare a few fixed documents; order, presence and cardinality combinations are not covered by samples.',
     ['soapfish/xsd.py'], [('rendering', 'soapfish/xsd.py ComplexType.render, Element.render, ListElement.render'), ('field order', 'soapfish/xsd.py ComplexTypeMetaInfo')],
     'lists up to 4 items, occurrence limits 0..4')
prop('P06', 'Illegal assignments raise and leave the object unchanged',
     'Assigning, passing to a constructor or appending to a list a value of the wrong kind for the field (text that is no number, objects of unrelated classes, items beyond maxOccurs, unknown field names) raises an error '
     'and every field of the object keeps the value it had, while legal values, instances of derived classes, None for any field and nil for nillable fields are taken over unchanged.',
     ['inputs', 'histories'], '18 field types times 24 kinds of values, each symbolic, on every route',
     'Tests check one wrong value for some types; the matrix of types and value kinds and the state after the refusal are not examined.',
     ['soapfish/xsd.py'], [('guards', 'soapfish/xsd.py ComplexType.__setattr__, TypedList.append, accept methods')],
     'lists up to 4 items')
prop('P07', 'Objects do not share state',
     'Setting, clearing, appending or parsing into one object never changes another object of the same class, of a base or derived class, or one created earlier or later: '
     'every new object starts with empty lists, no group contents of others and the declared defaults. This includes the library types for envelopes, headers, WSDL and XSD documents.',
     ['histories'], 'every history of three operations out of nine on three objects with symbolic values; every list field of the library types',
     'Tests use one object at a time; sharing shows only when two objects and a history of operations are observed together.',
     ['soapfish/xsd.py'], [('fresh defaults', 'soapfish/xsd.py ComplexType.__new__, ListElement.empty_value, Ref.empty_value')],
     'histories of 3 operations')
prop('P08', 'Equality, hash and order of parsed objects follow the documents',
     'Two objects parsed from documents of the same layout (elements, attributes and their order) are equal exactly when every field is equal, also as fields or list items of other objects; '
     'equal objects have equal hashes and count once in a set, inequality is the opposite of equality, an object that was parsed equals none that was built, and '
     'ordering is a strict total order on unequal objects that is consistent with equality.',
     ['inputs'], 'pairs and triples of parsed objects of two classes with symbolic content',
     'Tests compare two or three fixed objects; laws such as transitivity need all pairs and triples.',
     ['soapfish/xsd.py'], [('comparison', 'soapfish/xsd.py ComplexType.__eq__, __hash__, __lt__')],
     'texts up to 2 characters, lists up to 2')
prop('P10', 'Every request reaches exactly the operation it names',
     'A POST request runs exactly one operation: the one whose SOAP action equals the action sent (quoted or bare SOAPAction header for SOAP 1.1, action parameter of the content type for SOAP 1.2), or, without an action, '
     'the one whose input element is the root of the body, or the head of the substitution group the root belongs to. Unknown actions and roots that name no operation run nothing and give a client fault, '
     'and requests by any other HTTP method never run an operation.',
     ['inputs', 'configurations'], 'actions of 0..6 symbolic characters in each header, all roots and symbolic root names, every order of operations, both SOAP versions',
     'Tests send a few well-formed requests to services with one or two operations.',
     ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/soap.py'],
     [('routing', 'soapfish/soap_dispatch.py _find_handler_for_request'), ('action headers', 'soapfish/soap11.py, soapfish/soap12.py determine_soap_action')],
     'actions up to 6 characters, services of 2 to 4 operations')
prop('P11', 'Operations only see input that their schema allows',
     'An operation runs only when the body of the request (and its header, when headers are checked) is valid against the schemas of the service, and it then receives the values of the document. '
     'Every other request, whether damaged, not an envelope, of another SOAP form, with missing, surplus, repeated, misplaced or misnamed elements or attributes, or with a value that a facet forbids, '
     'runs nothing and is answered with a client fault of the SOAP version; no request makes the dispatcher fail with an exception.',
     ['inputs'], 'every text of up to 3 symbolic characters in each place, every subset, repetition and order of up to 3 children, symbolic names, envelopes damaged at symbolic places, all header policies, both SOAP versions',
     'Tests send a handful of invalid requests; whether a document is accepted has to agree with its schema for every document.',
     ['soapfish/soap_dispatch.py', 'soapfish/xsd.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/py2xsd.py'],
     [('validation', 'soapfish/soap_dispatch.py SOAPDispatcher._validate_body, _validate_input, _parse_soap_content'), ('XML validation', 'soapfish/xsd.py XMLSchema validation and parsing')],
     'texts up to 3 characters, up to 3 children')
prop('P12', 'Every error is answered with a fault that carries it',
     'An error that an operation or a middleware raises or returns reaches the client as a SOAP fault of the SOAP version of the service, with status 500, the code of the error (the codes for client and server errors in the form of that version), '
     'its exact message and its header; other exceptions become server faults exactly when the exception middleware is installed, and an error leaves no trace in the answers to other requests.',
     ['inputs', 'histories'], 'errors with symbolic codes and messages, raised or returned, from operations and from middlewares at every position of a chain, sequences of requests',
     'Tests raise one error with a plain ASCII message at one place.',
     ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/middlewares.py', 'soapfish/core.py'],
     [('fault responses', 'soapfish/soap_dispatch.py dispatch; soap11.py, soap12.py get_error_response'), ('exceptions', 'soapfish/middlewares.py ExceptionToSoapFault')],
     'messages up to 4 characters, chains of up to 2 middlewares')
prop('P13', 'Client and server understand each other',
     'What the client stub sends is what the operation receives, and what the operation answers is what the call returns: every value, list, nested object, attribute and header, present or absent, arrives unchanged, and faults '
     'arrive as SOAPError with their code, message and actor. Each call is one POST to the configured location with the credentials and the HTTP headers of the SOAP version, and calls do not affect each other.',
     ['inputs', 'histories'], 'calls through the stub into a dispatcher for both SOAP versions and element forms, with symbolic values, headers, faults, locations, credentials and SOAP actions',
     'Tests of the client use canned responses; the agreement of both sides over all values is not examined.',
     ['soapfish/soap.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/soap_dispatch.py', 'soapfish/xsd.py'],
     [('client', 'soapfish/soap.py Stub.call, _handle_response'), ('envelopes', 'soapfish/soap11.py, soap12.py Envelope.response, error_response, parse_fault_message, build_http_request_headers')],
     'texts up to 3 characters, lists up to 2')
prop('P09', 'Names select exactly what carries them',
     'Looking up an element in a schema (with all schemas it imports or includes, at any depth) or a service, a message, its headers and parts in a WSDL document, or the SOAP version of a namespace or document, '
     'yields the first item that carries exactly that name (a prefix of the reference does not matter), and reports a missing name as missing.',
     ['inputs', 'configurations'], 'symbolic names with and without prefixes against lists and trees of items with symbolic names; namespaces with any character replaced; documents with up to 3 bindings',
     'Tests look up names that exist in lists of one or two items; prefixes of names, repeated names and deep trees are not tried.',
     ['soapfish/xsd.py', 'soapfish/soap.py', 'soapfish/wsdl.py', 'soapfish/utils.py', 'soapfish/xsdspec.py'],
     [('schema lookups', 'soapfish/xsd.py Schema.get_element_by_name; soap.py Service.find_element_by_name'), ('WSDL lookups', 'soapfish/wsdl.py'), ('SOAP versions', 'soapfish/soap.py SOAPVersion')],
     'names up to 3 characters, trees of up to 3 schemas')
prop('P15', 'GET requests are answered with WSDL and schemas, and nothing else',
     'A GET request with wsdl or singleWsdl in its query gets the WSDL document with the scheme and host of that request put in (or the placeholders kept when the host is unknown), one with xsd=LOCATION gets exactly the schema of that location, '
     'an unknown schema is not found (404), and any other query or verb is a bad request (400); no GET request runs an operation. Every schema that the WSDL or a served schema refers to is served under the address given there.',
     ['inputs', 'configurations'], 'symbolic query strings, hosts and schemes; trees of imported and included schemas with symbolic locations',
     'Tests fetch the WSDL of one service; links between documents and all possible queries are not followed.',
     ['soapfish/soap_dispatch.py', 'soapfish/utils.py', 'soapfish/py2wsdl.py', 'soapfish/py2xsd.py'],
     [('documents', 'soapfish/soap_dispatch.py handle_wsdl_request, handle_xsd_request, _rewrite_locations'), ('schema tree', 'soapfish/utils.py walk_schema_tree')],
     'query parts up to 4 characters, trees of up to 4 schemas')
prop('P16', 'Hooks see each message once and their result counts',
     'The hooks soap-, wsdl- and xsd-request and -response are the only accepted ones; each runs exactly once for every request of its kind and for no other, outside of the middlewares, with the dispatcher, the request and (for responses, errors '
     'included) the finished response, and the request or response it returns is the one that is processed or sent. A hook that returns anything else or raises makes the dispatcher fail; without hooks nothing changes.',
     ['inputs', 'histories'], 'symbolic hook names, every subset of hooks for every kind of request, hooks that pass on, change, replace, fail; sequences of requests',
     'Tests install one hook at a time for a request that succeeds.',
     ['soapfish/soap_dispatch.py'], [('hooks', 'soapfish/soap_dispatch.py SOAPDispatcher.__init__, _call_hook, handle_*_request')],
     'hook names up to 14 characters, sequences of 3 requests')
prop('P17', 'Middlewares wrap the operation in order',
     'Middlewares are entered in the order given and left in the opposite order, each at most once per request and the operation inside of all of them; a middleware that does not call the next one ends the chain and its answer is sent, and what it changes in '
     'request or response is what the rest sees. Status, headers, SOAP header and body of a response are sent as they are, with the content type of the SOAP version. The exception logger logs exactly the chosen exceptions once and passes every exception on unchanged.',
     ['inputs', 'histories'], 'chains of 0..4 middlewares of every behaviour, symbolic status codes, header values and texts, exceptions of all kinds, sequences of requests',
     'Tests use one or two middlewares that pass everything on.',
     ['soapfish/soap_dispatch.py', 'soapfish/middlewares.py', 'soapfish/core.py'],
     [('chain', 'soapfish/soap_dispatch.py SOAPDispatcher.middleware, handle_soap_request'), ('logger', 'soapfish/middlewares.py ExceptionLogger'), ('responses', 'soapfish/core.py SOAPResponse')],
     'chains of up to 4 middlewares, sequences of 3 requests')
prop('P18', 'WSGI, Django and Flask give the answers of the dispatcher',
     'The WSGI application and the views for Django and Flask answer every request exactly as the dispatcher does: same operation and input, same status, headers and content, whatever the request (operation, fault, WSDL, schema, bad request) and whatever the response '
     'sets; arguments such as middlewares and hooks take effect, the original request is available to operations of the views, requests do not affect each other, and the WSGI application reads exactly the content of the request.',
     ['inputs', 'configurations'], 'every kind of request with symbolic texts, actions, hosts, and responses with symbolic status, headers and content, through each of the three adapters',
     'Tests send one good request through each adapter.',
     ['soapfish/soap_dispatch.py', 'soapfish/django_.py', 'soapfish/flask_.py'],
     [('adapters', 'soapfish/soap_dispatch.py WsgiSoapApplication; django_.py; flask_.py')],
     'texts up to 3 characters, sequences of 2 requests; the frameworks are modelled and every path is replayed on the real ones')

prop('P19', 'Generated schemas accept exactly what the classes describe',
     'The XML schema generated for classes is a legal schema and accepts a document exactly when it has the declared root, elements, attributes, order, number and namespaces (inherited and group members included) and every text satisfies the type and the facets of its field, '
     'given inline, by a named type or by a derived one. So everything an object with legal values writes is valid, and built-in types accept the texts that the classes read. Included and imported schemas take part; parsing and writing with a schema refuse exactly the invalid documents.',
     ['inputs', 'programs'], 'symbolic facet values, texts, numbers and occurrence limits on every kind of field; symbolic documents against classes of every shape',
     'Tests generate schemas for a few classes and validate single documents; the agreement of a generated schema with its classes is about all documents and all facet values.',
     ['soapfish/py2xsd.py', 'soapfish/xsd.py', 'soapfish/xsdspec.py'],
     [('generation', 'soapfish/py2xsd.py generate_xsdspec, xsd_complexType, add_facets, create_xsd_element'), ('validation', 'soapfish/py2xsd.py schema_validator; soapfish/xsd.py ComplexType.parsexml, xml')],
     'facet values 0..3 and -30..30, texts up to 4 characters, documents of up to 4 children')
prop('P23', 'WS-Addressing headers arrive, are checked, and answers refer to them',
     'For services with WS-Addressing the operation and the caller see exactly the Action, MessageID, To, RelatesTo and ReplyTo that were sent; a header that breaks the schema of WS-Addressing is refused with a client fault whether or not headers are checked strictly. A filled header '
     'has a new MessageID, the anonymous address, and, given the header of a request, its Action with Response appended and its MessageID as RelatesTo; it never changes the request and is legal on the wire. Services install these headers unless they define their own.',
     ['inputs', 'histories'], 'every subset and order of header blocks with symbolic values, damaged and foreign blocks, sequences of requests, calls through the client stub',
     'Tests send one fixed header and never look at the answers.',
     ['soapfish/wsa.py', 'soapfish/soap.py', 'soapfish/soap_dispatch.py'],
     [('header', 'soapfish/wsa.py Header, fill_header'), ('validation', 'soapfish/soap_dispatch.py SOAPDispatcher._validate_header'), ('defaults', 'soapfish/soap.py Service')],
     'texts up to 3 characters, sequences of 3 requests')

prop('P22', 'Code is generated from exactly the files that documents name, in order',
     'The generators read exactly the documents reachable from the given one: each location is relative to the document in which it stands (folder or URL, at any depth, also in schemas of imported WSDL documents), each file contributes its definitions exactly once '
     'however often and by whatever spelling it is named, and cycles end. Included files without a namespace take that of the including schema. Schemas come after those they import and types after those they derive from, whatever their order in the documents, so that the code can be used.',
     ['inputs', 'programs'], 'symbolic locations at two levels for local and remote documents, every graph of references of up to 3 files, symbolic namespaces and imports of up to 3 schemas, symbolic bases of up to 4 types',
     'Tests generate code for a few fixed trees of files, all in a good order.',
     ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py', 'soapfish/templates/xsd.jinja2'],
     [('locations', 'soapfish/utils.py resolve_location; soapfish/xsd2py.py rewrite_paths, resolve_import'), ('merging', 'soapfish/wsdl2py.py merge_imports, reorder_schemas'), ('order of types', 'soapfish/xsd2py.py _reorder_types')],
     'locations of up to 4 characters ahead of the file name, up to 3 files and 4 types')

prop('P20', 'Classes generated from an XML schema describe what the schema describes',
     'The code generated from an XML schema can be imported and describes the same documents: a document that has the declared elements and attributes (names, order, number, form, use, types) is valid for the generated classes exactly when it is valid for the schema, '
     'every facet keeps its meaning and value on named, derived and inline types, derived types are subclasses with the members of their base, and any legal name of an element, attribute or type gets a Python name of its own while documents keep the original. '
     'Classes read valid documents with all values and write valid ones; create() takes the required elements in order.',
     ['inputs', 'programs'], 'symbolic schemas: facet values, names, occurrence limits, namespaces, built-in types, shapes; symbolic documents against each of them',
     'Tests generate code for fixed schemas and mostly check that it can be imported; the meaning of the code is about all documents and all schemas.',
     ['soapfish/xsd2py.py', 'soapfish/utils.py', 'soapfish/templates/lib.jinja2', 'soapfish/templates/xsd.jinja2', 'soapfish/xsdspec.py'],
     [('templates', 'soapfish/templates/lib.jinja2 render_Schema, render_complexType, render_xsd_element, render_xsd_Restriction'), ('filters', 'soapfish/utils.py get_rendering_environment'), ('reading', 'soapfish/xsdspec.py')],
     'names of up to 2 symbolic characters, facet values 0..3 and -30..30, texts up to 3 characters, documents of up to 3 children')

prop('P21', 'WSDL documents describe the service, and code made from them is that service',
     'The WSDL document generated for a service has exactly its operations in order, each bound once, with name, SOAP action, style and the element or type of input and output, under its location, namespace and SOAP version, and contains each of its schemas unchanged (names refer to the right namespace, however many schemas). '
     'Code generated from a WSDL document can be imported whatever legal names and addresses the document has, and gives one service (and stub) per SOAP port with the operations of its binding: the stub sends the message, header blocks and action that the document says to the address it says (or to the same path on another host) and returns the typed answer; the server code dispatches the operations; '
     'and client code generated from the document of a service can talk to that service.',
     ['inputs', 'programs'], 'symbolic service descriptions (names, namespaces, actions, addresses, messages, schemas) and symbolic WSDL documents (ports, bindings, header blocks, parts); symbolic message contents through the generated code',
     'Tests generate documents and code for a few fixed services and check that they can be parsed; the meaning of the code is about all documents.',
     ['soapfish/py2wsdl.py', 'soapfish/wsdl2py.py', 'soapfish/wsdl.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/templates/wsdl.jinja2', 'soapfish/utils.py', 'soapfish/soap.py'],
     [('document', 'soapfish/py2wsdl.py build_*, generate_wsdl'), ('code', 'soapfish/templates/wsdl.jinja2'), ('filters', 'soapfish/utils.py url_template, url_component, fix_keyword, argument, schema_select'), ('lookup', 'soapfish/wsdl.py get_message_object, get_message_header')],
     'names, namespaces and actions of up to 2 symbolic characters, paths of addresses of up to 2, 0..2 operations, 1..3 schemas, 1..2 services and ports')

prop('P24', 'Schema and WSDL documents are kept by the objects that represent them',
     'Reading an XML Schema or a WSDL document (SOAP 1.1 or 1.2) into the objects of xsdspec and wsdl11 or wsdl12 and writing these gives the same document: every definition, element, attribute, facet, occurrence limit, reference, message, part, operation, binding, header block, port and address that the object model declares is there once, in order, with exactly its value, '
     'and the objects say the same; what is absent stays absent, unbounded is unbounded, schemas are unqualified unless they say otherwise, and a message has an only part exactly when there is one.',
     ['inputs'], 'symbolic schema and WSDL documents with every construct present or absent and symbolic names and values',
     'Tests read a few fixed documents and look at single values; every generator relies on nothing getting lost in the objects.',
     ['soapfish/xsdspec.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/xsd.py'],
     [('schema documents', 'soapfish/xsdspec.py Schema and its parts'), ('WSDL documents', 'soapfish/wsdl11.py, soapfish/wsdl12.py Definitions and its parts'), ('reading and writing', 'soapfish/xsd.py ComplexType.parse_xmlelement, render')],
     'values of 1 symbolic printable character, occurrence limits 0..12, up to 2 items of each kind')

prop('P25', 'Programs write what the library makes of the documents they are given',
     'The programs xsd2py, wsdl2py, py2xsd and py2wsdl read the document or module that the command line names (for the first two a path, a URL or - for the standard input; references in it are relative to its place, for standard input to the current folder), '
     'and write exactly what the library makes of it to the named file or the standard output and nothing else anywhere. wsdl2py makes the client or server code asked for, with WS-Addressing headers if asked for, wherever the options stand before or after the files. '
     'A command line that is not understood ends the program with status 2, a message on the standard error stream, and nothing read or written.',
     ['inputs', 'configurations'], 'symbolic paths, URLs and locations, all options and outputs, symbolic wrong command lines, symbolic contents of modules and documents',
     'Tests never run the programs.',
     ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/py2xsd.py', 'soapfish/py2wsdl.py', 'soapfish/utils.py'],
     [('programs', 'main in soapfish/xsd2py.py, wsdl2py.py, py2xsd.py, py2wsdl.py'), ('documents', 'soapfish/utils.py open_document, resolve_location')],
     'paths of up to 4 characters ahead of the file name, up to 3 arguments')

prop('P14', 'What is handled at the same time does not affect each other',
     'Requests that one dispatcher, WSGI application or view handles at the same time (in different threads) each get the answer they would get alone: their own operation, texts, error, headers, hooks and middlewares, each run once and in order. '
     'The same holds for calls through one stub or through stubs of one class, for building, reading and writing objects of the same classes (the first use of a class included), and for generating schemas, WSDL documents and code.',
     ['schedules', 'inputs'], 'every statement of the library at which the first activity can be stopped while the second runs, for every pair of kinds of activities, with symbolic texts',
     'Tests handle one request after the other; whether two requests share state that one of them changes shows only when they overlap at the right statement.',
     ['soapfish/soap_dispatch.py', 'soapfish/soap.py', 'soapfish/xsd.py', 'soapfish/django_.py', 'soapfish/flask_.py', 'soapfish/py2wsdl.py', 'soapfish/xsd2py.py'],
     [('requests', 'soapfish/soap_dispatch.py SOAPDispatcher.dispatch, middleware, WsgiSoapApplication'), ('calls', 'soapfish/soap.py Stub.call'), ('classes', 'soapfish/xsd.py Element._evaluate_type, ComplexType'), ('views', 'soapfish/django_.py, soapfish/flask_.py')],
     'two activities, one switch to the second and back ahead of any statement of the library (its first visit)')

prop('P26', 'Earlier use of a service, schema or class does not change later results',
     'Whatever was done before with a service, its schemas and classes (schemas, WSDL documents, validators, dispatchers, code generated; requests answered, failed, refused; calls; objects read with or without a schema, written, refused; classes derived; further schemas and services made that import them), '
     'each of these gives the same result as if it were the first: the same documents, code, answers, messages and objects.',
     ['histories', 'inputs'], 'every sequence of uses within the bound, with symbolic texts in requests, calls and objects',
     'Tests make a new service and do one thing with it; what one use leaves behind in shared schemas, fields, classes or default arguments shows only in another use later.',
     ['soapfish/xsd.py', 'soapfish/soap.py', 'soapfish/soap_dispatch.py', 'soapfish/py2xsd.py', 'soapfish/py2wsdl.py', 'soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py'],
     [('shared descriptions', 'soapfish/xsd.py Schema, Element, ComplexTypeMetaInfo; soapfish/soap.py Service'), ('users', 'soapfish/py2xsd.py, py2wsdl.py generate_*; soapfish/soap_dispatch.py SOAPDispatcher; soapfish/soap.py Stub; soapfish/xsd2py.py, wsdl2py.py generate_code_*')],
     'histories of 2 uses of 24 kinds (thorough: 3) ahead of the judged one, texts of 1 character')

NOT_APPLICABLE = []

# --- more ---------------------------------------------------------------------


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, title, statement, over, text, why, files, mech, note, observe in P:
            d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
            if observe:
                d['anchors']['observe_at'] = list(observe)
            assert len(title) <= 80, title
            f.write(json.dumps(d) + '\n')
    checks = [{
        'property': p[0],
        'quick_cmd': f'./check.py {p[0]} --tier quick',
        'thorough_cmd': f'./check.py {p[0]} --tier thorough',
        'technique': 'bounded symbolic execution of the Python source with z3; counterexamples and every path replayed on the real code',
        'level': 'other',
        'level_note': 'Exhaustive over all symbolic values within stated bounds: ' + p[8] + '; models of lxml, re and datetime are validated by replaying every path on the real code.',
    } for p in P if p[0] not in {n[0] for n in NOT_APPLICABLE}]
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [{'property': a, 'reason': b} for a, b in NOT_APPLICABLE]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
