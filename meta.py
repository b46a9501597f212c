"""The properties: text, anchors and the module that decides each.  tools/genmeta.py writes
properties.jsonl and MANIFEST.json from this file."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, module, technique, note, expl, assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  module=module, technique=technique, note=note, expl=expl, assume=list(assume)))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


BASE_ASSUME = [
    'the libTooling extractor renders the Clang 18 AST faithfully; macros and #ifdefs as on this Linux build',
    'std/boost/expat/zlib behave as documented (modelled, not analysed)',
]

prop('C01', 'A child element read into an element is written back unchanged',
     'For every KML element and every known element that can appear inside it, in any position and combination, the '
     'child is either surfaced through the typed fields or kept as misplaced content, never lost and never duplicated. '
     'Serializing the element afterwards writes that child exactly once, under its own name and with the same value, '
     'whatever the state of the other fields. Only text that is not in the enumeration of an enumerated field may be dropped.',
     ['inputs', 'programs'],
     'every element class (92) x every KML element type (221) x every state of the parent\'s other fields x every child text',
     'Tests parse a few documents per element; the reader (AddElement) and the writer (Serialize) of 92 classes are '
     'separate hand-written code that must agree for each of some 20,000 parent/child pairs and for every combination of present fields.',
     ['src/kml/dom/*.cc', 'src/kml/dom/element.cc', 'src/kml/dom/serializer.h'],
     [('AddElement / Serialize overrides', 'src/kml/dom/*.cc'), ('misplaced element list', 'src/kml/dom/element.cc Element::AddElement, SerializeUnknown')],
     'children', 'abstract interpretation of reader and writer code (path-sensitive dataflow over the AST)',
     'All paths of the AddElement and Serialize code of every class, parent state unknown; loops by widening with a '
     'coverage rule (every index exactly once). List-valued <state> of ItemIcon is checked for the reader only.',
     'For each (class, child type) pair the analysis abstractly interprets C::AddElement on an object whose fields are all '
     'unknown and then C::Serialize against an abstract sink; a pair is discharged when every path stores the child in exactly '
     'one place and every writing path emits it exactly once under its type.',
     BASE_ASSUME + ['number-to-text conversion and its inverse are exact (decided separately by C05/C12 rules or out of scope)'])

prop('C02', 'Accessors of every element: set, get, has, clear, add agree',
     'For every field of every KML element: a new element reports it absent; after setting it, it is present and reads back '
     'as the value set; after clearing it, it is absent and reads as in a new element; adding to a repeated field appends exactly that value. '
     'No such call changes any other field, no field is left uninitialised. '
     'A value set through the API is written exactly once when serializing, and reading the written form back restores the same value.',
     ['inputs', 'histories'],
     'every accessor of every element class, every argument value, every prior state of the element',
     'Tests set and read a few fields of some classes from the freshly created state; they do not cover every accessor '
     'against every prior state, nor interference between fields.',
     ['src/kml/dom/*.h', 'src/kml/dom/*.cc'],
     [('set_/get_/has_/clear_/add_ members', 'src/kml/dom/*.h'), ('constructors', 'src/kml/dom/*.cc')],
     'accessors', 'abstract interpretation of accessor, constructor, reader and writer code',
     'All paths of each accessor from an arbitrary state; getters are compared as value numbers.',
     'Accessors are enumerated from the classes (set_X/get_X/has_X/clear_X/add_X/array accessors); each is interpreted abstractly '
     'on an object of unknown state and the results of all getters are compared before and after.',
     BASE_ASSUME)

prop('C03', 'Attributes of an element survive reading and writing',
     'Every attribute an element understands is written back under the same name with the same value after being read, '
     'and is not invented when it was absent. Every attribute it does not understand, including namespace declarations, is kept and '
     'written back. A value set through the API and written as an attribute is restored by reading it.',
     ['inputs'],
     'every element class, every attribute list, every combination of present attributes',
     'Tests exercise single attributes of a few classes; the reader and writer of each class are separate code.',
     ['src/kml/dom/*.cc', 'src/kml/base/attributes.h', 'src/kml/base/attributes.cc'],
     [('ParseAttributes / SerializeAttributes', 'src/kml/dom/*.cc'), ('unknown attribute store', 'src/kml/dom/element.cc')],
     'attributes', 'abstract interpretation of attribute reader and writer code',
     'All paths; attribute values symbolic.',
     'ParseAttributes is interpreted with an abstract attribute list, each key in turn present or absent, then '
     'SerializeAttributes against an abstract sink.',
     BASE_ASSUME)

prop('C04', 'Element names, types, classes and casts agree',
     'Every known element name denotes exactly one element type and that type carries exactly that name; any other name is reported unknown. '
     'Creating an element by name, by type or by its typed create function gives an object of that very type. '
     'Asking whether an element is of a kind, or casting it to a kind, succeeds exactly when its class is that kind or derives from it, and a failed cast or a null gives null.',
     ['inputs', 'programs'],
     'every element type (221) x every type query and every typed cast (110), every element name',
     'The tables, the factory switch, IsA overrides and casts are hand-written lists of hundreds of entries; tests touch '
     'most positives but almost none of the 45,000 negatives, and one misplaced entry breaks reading for that element.',
     ['src/kml/dom/kml22.h', 'src/kml/dom/kml22.cc', 'src/kml/dom/xsd.cc', 'src/kml/dom/kml_cast.cc', 'src/kml/dom/kml_factory.cc', 'src/kml/dom/*.h'],
     [('schema table', 'src/kml/dom/kml22.cc, xsd.cc'), ('factory', 'src/kml/dom/kml_factory.cc'), ('casts', 'src/kml/dom/kml_cast.cc')],
     'typeid', 'constant propagation / abstract interpretation of tables, factory, type queries and casts',
     'Complete enumeration of the finite type, class and cast universe.',
     'The schema constructor, the name/id lookups, the factory, Type(), IsA() and every cast are interpreted abstractly for each '
     'element type; results are compared with the class hierarchy of the type-checked program and spec/names.json.',
     BASE_ASSUME)

prop('C05', 'Enumerated values keep their standard text, both ways',
     'Every value of every enumerated KML field is written as the text the KML standard gives it, and that text is read as that value; '
     'distinct values have distinct texts. Text outside the enumeration is recognised as such and never read as some value, and a value '
     'outside the enumeration gives no text instead of reading outside the table. Each enumerated field uses the list of its own enumeration.',
     ['inputs'],
     'all 14 enumerations x all values, out-of-range values and non-member texts; all enumerated fields of all elements',
     'Tests check the table through a few hand-picked fields; the table is indexed by position from separately declared C++ enumerations.',
     ['src/kml/dom/kml22.cc', 'src/kml/dom/kml22.h', 'src/kml/dom/xsd.cc', 'src/kml/dom/*.cc'],
     [('enumeration tables', 'src/kml/dom/kml22.cc'), ('EnumId / EnumValue', 'src/kml/dom/xsd.cc')],
     'enums', 'constant propagation / abstract interpretation of the enumeration tables and lookups',
     'Complete over the finite enumerations; non-member texts and out-of-range values by representatives per list.',
     'EnumValue and EnumId are interpreted abstractly for each enumeration value; which list a field uses is found by interpreting its setter and '
     'then the writers of its element.',
     BASE_ASSUME)

prop('C06', 'Reading is balanced; unknown content is kept; nesting is bounded',
     'For every document and every nesting of known, unknown and description elements, closing an element returns the reader to the state it had before the element '
     'was opened, each known element is handed to its parent exactly once with its text and attributes, and each unknown element is kept as '
     'well-formed text of its innermost known ancestor exactly once. A document nested deeper than the limit or with an unknown root stops the parser, and '
     'observers see each element once in order and can stop the parse or veto a child.',
     ['inputs', 'schedules'],
     'every sequence of start, text and end events, by induction over the element nesting',
     'The reader is a hand-written state machine with five counters and stacks; an imbalance shows only for particular nestings (e.g. two descriptions inside an unknown '
     'element swallow the rest of the document), which sampled tests do not hit.',
     ['src/kml/dom/kml_handler.cc', 'src/kml/dom/kml_handler.h', 'src/kml/dom/parser_observer.h'],
     [('StartElement / EndElement / CharData', 'src/kml/dom/kml_handler.cc')],
     'reader', 'typestate analysis: inductive pairing of start and end handlers by abstract interpretation',
     'Induction over nesting: from each reader mode (root, known, old-style child, unknown, description) with symbolic counters and stacks, one element is opened, given text and closed. '
     'The obsolete Schema extension is included for balance, not for what it makes of its data. One observer.',
     'StartElement, CharData and EndElement are interpreted abstractly, with symbolic stacks, counters, names and factory results, on all paths; the composition must be the identity on the reader state.',
     BASE_ASSUME)

prop('C07', 'What is written is well-formed XML that reads back as the same text',
     'For every element and every text or attribute value, including ones that hold markup characters, CDATA sections, quotes or line ends, the serialized document is '
     'well-formed XML from which a parser reads the same text and attribute values. Each element is written as exactly one start tag with its own name and its '
     'attributes, its content, and one matching end tag, whether or not it is empty; only the kept text of unknown elements is copied unescaped.',
     ['inputs', 'programs'],
     'every text and attribute value, every element class (92) and every state of the XML writer',
     'Malformed output needs a particular value in a particular place (an attribute with a quote, a text with ]]> or a nil element after attributes); tests write a few benign texts.',
     ['src/kml/dom/serializer.cc', 'src/kml/dom/xml_serializer.h', 'src/kml/base/attributes.cc', 'src/kml/base/string_util.cc', 'src/kml/dom/*.cc'],
     [('MaybeQuoteString', 'src/kml/dom/serializer.cc'), ('XmlSerializer', 'src/kml/dom/xml_serializer.h'), ('Attributes::Serialize', 'src/kml/base/attributes.cc')],
     'output', 'dataflow: transfer functions of the escaping loops, typestate of the XML writer, abstract interpretation of all Serialize methods',
     'Texts that cannot be written in XML 1.0 at all (control characters, invalid UTF-8) are out of scope. Escaping loops are decided from the transfer function of one arbitrary iteration.',
     'The escaping functions are reduced to a per-character map and compared with what an XML parser reads; MaybeQuoteString paths must establish what their form needs; each XmlSerializer method is interpreted '
     'from each writer state and its output matched; each Serialize is a bracketed sequence.',
     BASE_ASSUME)

prop('C08', 'A visitor reaches every element once, under its own class',
     'For every element and every combination of children, a visitor is told of the element through exactly one method, the one of its own class, which by default falls back '
     'class by class to the most general one. The traversal drivers lead to every child held by an element exactly once, in list order and never to an absent one, '
     'visiting an element before (preorder) or after (postorder) its children.',
     ['inputs', 'programs'],
     'every element class (92), every child field, every visitor method (some 100), every combination of children set',
     'Each class has hand-written traversal code; a child left out or visited twice shows only for documents with that child, and tests visit a handful.',
     ['src/kml/dom/visitor.cc', 'src/kml/dom/visitor_driver.cc', 'src/kml/dom/*.cc', 'src/kml/dom/element.h'],
     [('Accept / AcceptChildren', 'src/kml/dom/*.cc'), ('Visitor defaults', 'src/kml/dom/visitor.cc')],
     'visit', 'abstract interpretation of the traversal code (path-sensitive dataflow over the AST)',
     'Children are those held in typed fields; misplaced and unknown content is not traversed by design.',
     'Accept, AcceptChildren, every Visitor default and both drivers are interpreted abstractly on an element of unknown state; each child field must be handed to the driver exactly once on the paths where it is set.',
     BASE_ASSUME)

prop('C09', 'An element has one parent; children are taken, held and removed exactly once',
     'For every element, whatever else it holds, setting or adding a child that has no parent makes the element its only parent and holds it exactly once, and a child that already has a parent or '
     'belongs to another file is refused with nothing changed. Deleting by index removes exactly that child and is harmless out of range, and a reference-counted object '
     'is destroyed exactly when its last reference goes.',
     ['inputs', 'histories', 'programs'],
     'every method of every element class that takes or removes a child (some 150) x every state of parent and child',
     'A child with two parents is freed under one of them or written twice; that needs a history of moves between elements that tests do not try per method.',
     ['src/kml/dom/element.h', 'src/kml/base/xml_element.h', 'src/kml/base/referent.h', 'src/kml/dom/*.h'],
     [('SetComplexChild, AddComplexChild, DeleteFromArrayAt', 'src/kml/dom/element.h'), ('SetParent', 'src/kml/base/xml_element.h'), ('Referent', 'src/kml/base/referent.h')],
     'parent', 'ownership analysis: abstract interpretation of every child-taking method',
     'Cycles (an element put under its own descendant) are not excluded by the library and not claimed; a removed child keeps its parent link (documented TODO) and cannot be re-added.',
     'Every method with an element parameter is interpreted on an element of unknown state with the child in each ownership state; deletion and reference counting likewise.',
     BASE_ASSUME)

prop('C10', 'Parsing is all or nothing, and reports failure',
     'Whatever the input text, a parse hands out a tree only when the XML parser accepted the whole document, and it is the tree that document describes; '
     'otherwise it hands out nothing and, if the caller asked for one, an error message. A document that declares entities is never parsed further. '
     'Every XML parser is released on every path.',
     ['inputs'],
     'every text, every entry point that parses (DOM, namespace-aware, Atom, KML file, stream, schema), every outcome of the XML parser',
     'Tests feed a few malformed documents to some entry points; whether a partial tree can leak out, whether an error goes unreported or an XML parser leaks depends on paths '
     '(suspension, entity declarations, read errors, allocation failures) that the tests do not take.',
     ['src/kml/base/expat_parser.cc', 'src/kml/dom/parser.cc', 'src/kml/engine/kml_stream.cc', 'src/kml/engine/kml_file.cc', 'src/kml/xsd/xsd_file.cc', 'src/kml/base/expat_handler_ns.cc'],
     [('ExpatParser', 'src/kml/base/expat_parser.cc'), ('entry points', 'src/kml/dom/parser.cc, src/kml/engine/kml_stream.cc'), ('entity stop', 'src/kml/base/expat_parser.cc entityDeclHandler')],
     'parsing', 'typestate and effect analysis of the XML parser handle (abstract interpretation, all paths)',
     'All paths of every function that drives the XML parser class and of the public wrappers, each status of the XML parser.',
     'The expat API is modelled as a typestate (create, configure, parse with three outcomes, free); every entry point is interpreted on all paths; rules E1-E7 relate '
     'result, error text, configuration and lifecycle to the parse outcome on each path.',
     BASE_ASSUME + ['the tree built by the events is right (C06)'])

prop('C12', 'A clone is a complete and independent copy',
     'Cloning any element yields a new tree that holds everything the source writes: every child in order, every field, text, attribute, coordinate tuple and preserved unknown content, each exactly once. '
     'The clone shares no element with the source and the source is left unchanged.',
     ['inputs'],
     'every element tree: every well-nested sequence of elements, fields, text, unknown content and coordinates',
     'Tests clone a handful of trees; how text, misplaced children, unknown content and nesting interleave in the copying serializer depends on combinations the tests do not contain.',
     ['src/kml/engine/clone.cc', 'src/kml/dom/serializer.h', 'src/kml/dom/serializer.cc'],
     [('ElementReplicator', 'src/kml/engine/clone.cc'), ('Clone', 'src/kml/engine/clone.cc')],
     'clone', 'protocol analysis: most general client of the copying serializer (abstract interpretation)',
     'Event sequences up to three items per element and depth three, with symbolic types, texts and attributes; what each element class writes is decided by C01-C03.',
     'Clone is interpreted with a source that writes every well-nested event sequence up to the bound; the effects on the created elements are compared with those of reading the same document.',
     BASE_ASSUME + ['writing and reading agree for every element class (C01, C02, C03)'])

prop('C11', 'Ids and searches index exactly what is in the tree',
     'After a file is created by parsing or import, looking up an id returns the last object carrying it and looking up a shared style returns the last style with that id directly in a Document; an id not present returns nothing, and duplicate ids are refused exactly where strictness was asked for. '
     'Searching, mapping, clearing or remapping ids, collecting link parents and collecting namespaces consider every element of the hierarchy exactly once. '
     'A file is handed out exactly when its content could be read.',
     ['inputs', 'histories'],
     'every element hierarchy, every assignment of ids and duplicates, every order of elements',
     'Tests use a few documents; duplicate ids, ids on elements that are not objects, misplaced elements and failing archives combine in ways the tests do not contain.',
     ['src/kml/engine/kml_file.cc', 'src/kml/engine/kml_file.h', 'src/kml/engine/id_mapper.cc', 'src/kml/engine/object_id_parser_observer.h', 'src/kml/engine/shared_style_parser_observer.h',
      'src/kml/engine/get_link_parents.cc', 'src/kml/engine/find.cc', 'src/kml/engine/find_xml_namespaces.cc'],
     [('MapIds', 'src/kml/engine/id_mapper.cc'), ('KmlFile::GetObjectById', 'src/kml/engine/kml_file.cc'), ('GetElementsById', 'src/kml/engine/find.cc')],
     'ids', 'abstract interpretation: effect of one step from an index of unknown content (inductive over the hierarchy)',
     'Steps are unbounded (unknown index, unknown element); ClearIds, RemapIds and import are decided for up to three collected objects.',
     'Each observer and traversal is interpreted for one arbitrary element from an index of unknown content and the resulting index compared with the specified one; entry points are interpreted with the traversal presented to them one arbitrary child.',
     BASE_ASSUME + ['an element presents its children to a serializer as decided by C01', 'the parser calls its observers as decided by C06'])

prop('C13', 'Updates change exactly the objects they target',
     'Applying an update performs its change, create and delete operations in order, each on the object whose id its target id names (through the id map when one is given), and on nothing else; operations whose target cannot be found are ignored. '
     'A change gives the target every attribute, field, text and preserved unknown content the source sets, merges into the first child of the same type or adds copies of children the target lacks, and leaves what the source does not set as it was. '
     'Created features are copies in source order, the source stays unchanged, and deletion removes exactly the one feature with that id.',
     ['inputs', 'histories'],
     'every update, every id map, every target file; operation lists of any kind and order',
     'Tests apply a few small updates; missing targets, partial id maps, several operations in one update and sources with text, attributes or unknown content combine in ways the tests do not contain.',
     ['src/kml/engine/update.cc', 'src/kml/engine/update_processor.cc', 'src/kml/engine/merge.cc', 'src/kml/dom/container.cc'],
     [('UpdateProcessor::ProcessUpdate', 'src/kml/engine/update_processor.cc'), ('MergeElements', 'src/kml/engine/merge.cc'), ('MergeFields', 'src/kml/engine/merge.cc')],
     'update', 'abstract interpretation: effect summaries of merging and updating compared with the specified effects',
     'Up to two operations of up to two targets, up to two source and three target children, with all contents symbolic; recursion is taken as an event (inductive).',
     'Every update and merge entry point is interpreted on symbolic updates; the recorded effects on the file are compared with the effects the operations call for under every combination of present, mapped and missing targets.',
     BASE_ASSUME + ['looking up ids (C11) and cloning (C12) behave as decided there', 'adding a child behaves as decided by C01 and C02'])

prop('C14', 'Styles resolve to what the document says',
     'The style resolved for a feature is a new style made from the shared style its style reference names overlaid with its inline style, taking from style maps exactly the pairs for the requested state in order and looking up references of a remote style in that remote file; unusable references are ignored and reference cycles end at the nesting limit. '
     'Splitting moves only inline styles of features outside updates, each under an id nothing else uses and which the feature then refers to. '
     'Inlining replaces only local references to styles already seen by the resolved style; everything else in the document stays as it was.',
     ['inputs', 'histories'],
     'every graph of styles, style maps and references (including cycles and remote files), every state, every order of parse events',
     'Tests resolve a handful of documents; nested style maps, cycles, remote style maps, ids that collide and updates in between need combinations the tests do not contain.',
     ['src/kml/engine/style_merger.cc', 'src/kml/engine/style_resolver.cc', 'src/kml/engine/style_splitter.cc', 'src/kml/engine/style_inliner.cc'],
     [('StyleMerger::MergeStyleUrl', 'src/kml/engine/style_merger.cc'), ('StyleSplitter::EndElement', 'src/kml/engine/style_splitter.cc'), ('StyleInliner::EndElement', 'src/kml/engine/style_inliner.cc')],
     'styles', 'abstract interpretation over a family of style graphs with symbolic keys and states; event-protocol analysis of the rewriting observers',
     'Style graphs: chains up to the nesting limit and beyond, cycles, nested maps, remote files; keys and state symbolic. Observer states: before/after a Document, outside/inside/after an Update, every relevant parent and child class.',
     'Style resolution is interpreted for every start reference and inline selector of a graph family and the merges it performs compared with the specified ones; the rewriting observers are interpreted for every combination of state and event.',
     BASE_ASSUME + ['merging (C13), lookups (C11) and URI splitting behave as decided there'])


prop('C15', 'Archive reads and writes give the right entry or fail',
     'Reading from a KMZ or ZIP archive returns the full content of exactly the entry asked for (for the default document: the first listed file with the KML extension), or fails and changes nothing; entries above the size limit are refused and everything opened is released exactly once on every path. '
     'Adding an entry reports success only if the whole content was written under the given path, and paths that are absolute or lead above the archive are refused. '
     'Building an archive from a document stores the document as the default file and each distinct referenced relative file once under its normalised path.',
     ['inputs', 'fault_sequences'],
     'every archive, entry name, size, and failure of any library or file call',
     'Tests use a few well-formed archives; partial reads, failing writes, size limits, duplicate and escaping paths need faults and names the tests do not produce.',
     ['src/kml/base/zip_file.cc', 'src/kml/engine/kmz_file.cc'],
     [('ZipFile::GetEntry', 'src/kml/base/zip_file.cc'), ('KmzFile::AddFileList', 'src/kml/engine/kmz_file.cc')],
     'kmz', 'path-sensitive abstract interpretation with a success/failure model of every library call; resource typestate on handles and buffers',
     'Tables of contents up to 3 entries, file lists up to 3 paths; each library call both succeeds and fails.',
     'Every path through the archive functions is interpreted with every library call failing or succeeding; results, outputs, buffer sizes and releases are compared with the specification.',
     BASE_ASSUME + ['minizip and the system file functions behave as documented'])


prop('C16', 'References are split, resolved and classified as RFC 3986 says',
     'Splitting, resolving, normalising or converting a reference gives the result RFC 3986 prescribes for its text (with the fetchable part and the archive and entry parts of a KMZ reference taken from it), or reports failure and leaves the output untouched; a failure is reported exactly when the text is not a valid reference, the base is not absolute, or a library call fails. '
     'Text passed to the URI library always goes into a buffer of at least the documented size, and everything allocated is released exactly once on every path. '
     'Listing the references of a document gives every link, style, alias target and schema reference in document order, and the relative ones are exactly those with a path and no scheme.',
     ['inputs', 'fault_sequences'],
     'every reference built from ordinary characters around the significant delimiters, every base, every library failure',
     'Tests check a few dozen literal references on the success path; combinations of base, target, fragment, archive part and failing library calls are not sampled.',
     ['src/kml/base/uri_parser.cc', 'src/kml/engine/kml_uri.cc', 'src/kml/engine/href.cc', 'src/kml/engine/get_links.cc'],
     [('KmlUri::CreateRelative', 'src/kml/engine/kml_uri.cc'), ('UriParser::ToString', 'src/kml/base/uri_parser.cc'), ('Href::Parse', 'src/kml/engine/href.cc')],
     'uri', 'path-sensitive abstract interpretation over schematic texts with an RFC 3986 model of the URI library; allocation typestate',
     'About 30 schematic references (runs of ordinary characters abstracted), all pairs with 12 bases; each library call both succeeds and fails.',
     'Every path through the reference functions is interpreted on schematic texts; results are compared with an independent RFC 3986 model, buffers and releases with the documented requirements.',
     BASE_ASSUME + ['the URI library implements RFC 3986 and documents its buffer sizes correctly'])


prop('C17', 'Fetch caches stay bounded and answer with what belongs to the address',
     'A cache never holds more items than its limit (a limit of zero counts as one), discards only its oldest item and only to make room, never keeps anything that is not a valid item, and answers for an address only with the item fetched from or saved under that address without using the network again. '
     'A reference from inside a KMZ is looked for in the archive it leads into and then next to that archive, every such search ends, and the content reported, the address reported and the address given to the parsed file belong together.',
     ['inputs', 'histories', 'fault_sequences'],
     'every cache content, limit and age order; every base and target; every failure of the network, of an archive or of the parser',
     'Tests fill small caches in one order and fetch existing targets; eviction orders, invalid data, missing entries and nested archive references need histories the tests do not contain.',
     ['src/kml/base/net_cache.h', 'src/kml/engine/kmz_cache.cc', 'src/kml/engine/kml_cache.cc', 'src/kml/engine/link_util.cc'],
     [('NetCache::Save', 'src/kml/base/net_cache.h'), ('KmzCache::DoFetchAndReturnUrl', 'src/kml/engine/kmz_cache.cc'), ('KmlCache::FetchKmlRelative', 'src/kml/engine/kml_cache.cc')],
     'caches', 'path-sensitive abstract interpretation from every cache state of a bounded family; fetch outcomes as symbolic facts',
     'Cache states: limits 0-3, up to 3 entries in every order of age, address present or absent (the step analysed is inductive). Fetches: 4 bases x 12 targets, every combination of missing file, archive, entry and parse failure.',
     'Each cache operation is interpreted from every state of the family and the resulting content compared with the specified one; each fetch is interpreted on all paths and compared with the specified search order.',
     BASE_ASSUME + ['references behave as decided in C16, archives as decided in C15'])


prop('C18', 'Bounds and positions cover exactly what a feature holds',
     'The bounds of any geometry or feature, however nested, are the smallest box around exactly the positions it holds, and there are bounds exactly when it holds a position; its position is the middle of those bounds. '
     'A box contains exactly the positions between its sides, expanding it moves only the sides that must move, and aligning it to a quadtree yields the deepest quadrant that still contains it.',
     ['inputs', 'programs'],
     'every geometry and feature tree, every coordinate value, every box',
     'Tests use a few literal points and boxes; every nesting of containers, multi-geometries, polygons with holes and empty parts, with every order of the values, is not sampled.',
     ['src/kml/engine/bbox.h', 'src/kml/engine/location_util.cc', 'src/kml/engine/location_util.h'],
     [('Bbox', 'src/kml/engine/bbox.h'), ('GetFeatureBounds, GetGeometryBounds', 'src/kml/engine/location_util.cc')],
     'bounds', 'path-sensitive abstract interpretation with order facts over symbolic coordinates (linear forms, transitive closure)',
     'Coordinate values are symbolic reals (no NaN, rounding ignored); geometry and feature trees up to depth 4 and 3 tuples per coordinate list.',
     'The box operations are interpreted on symbolic sides and every path is compared with the specified result under its order facts; the bounds functions are interpreted on a family of trees with symbolic coordinates.',
     BASE_ASSUME + ['coordinates are real numbers in the valid range; rounding is ignored'])


prop('C19', 'Numbers, booleans, colours and coordinates are read as written',
     'Every number, boolean and colour is written in the form the KML standard gives it, whatever the locale of the program, and that text is read back as the same value; numbers keep at least 15 digits and the channels of a colour are independent. '
     'A coordinate list is read as exactly the tuples its text holds, however long the numbers are and whatever white space separates them. '
     'On any other text reading ends, stays within its buffers and stores no uninitialised value.',
     ['inputs'],
     'every text of a number, boolean, colour, coordinate list or track point; every value written',
     'Tests parse a few dozen literal texts; the separators, sign, digit and length combinations that break a hand-written scanner are not sampled, nor are other locales.',
     ['src/kml/dom/geometry.cc', 'src/kml/base/string_util.cc', 'src/kml/base/color32.h', 'src/kml/base/vec3.h'],
     [('Coordinates::ParseVec3', 'src/kml/dom/geometry.cc'), ('FromString, ToString, StringToDouble', 'src/kml/base/string_util.cc'), ('Color32', 'src/kml/base/color32.h')],
     'values', 'abstract interpretation over schematic texts (digit runs abstracted), bit-level value analysis of colours, locale and precision typestate of streams',
     'Coordinate texts: about 1,000 texts (each number standing for any number written the same way) of up to three tuples over all white-space separators, and about 30 malformed ones. The accuracy of the standard library conversions is assumed.',
     'The scanners are interpreted on texts whose numbers are told apart only by position; copying a number into a buffer of fixed size is a violation whatever its length there; the stream-based conversions are checked for locale, precision and the value converted; colour operations as functions on 32 symbolic bits.',
     BASE_ASSUME + ['the stream conversions of the standard library are correct for the classic locale'])

prop('C20', 'Entities of a feature are expanded to its own values',
     'The entities of a feature are exactly its own id, fields, extended data and schema data, each under its own name with its own value and display name, whatever other data it or its document has. '
     'Expanding a text replaces every occurrence of a known entity by its value, keeps all other text and always ends. '
     'The balloon text of a feature is the expanded text of its resolved balloon style or, without one, its name, its expanded description and the table of all its extended data in order.',
     ['inputs'],
     'every combination of fields, Data, SchemaData and Schemas of a feature; every template text over a set of keys',
     'Tests use one or two features; a value that leaks from one SchemaData into the next, an undeclared field or two entities next to each other is not sampled.',
     ['src/kml/engine/entity_mapper.cc', 'src/kml/engine/feature_balloon.cc', 'src/kml/base/string_util.cc'],
     [('EntityMapper', 'src/kml/engine/entity_mapper.cc'), ('CreateBalloonText', 'src/kml/engine/feature_balloon.cc'), ('CreateExpandedStrings', 'src/kml/base/string_util.cc')],
     'balloon', 'abstract interpretation over all small feature shapes with symbolic values; rewriting of schematic texts',
     'Features with any subset of the fields and up to three Data/SchemaData; templates of up to four pieces. A value that itself contains an entity is only required to end.',
     'The entity map, the alternative table and the text are computed symbolically (the values are opaque symbols) and compared with the definition for every shape.',
     BASE_ASSUME + ['object lookup by id and style resolution are as decided by C06 and C09'])

prop('C21', 'Regionating keeps every feature and links every region file',
     'A child region is exactly the named quadrant of its parent and keeps its altitudes and level of detail. '
     'Every region that has data gets exactly one file holding its region, its data and one region link to the file of each child that has data, under the same name the child is saved with, and no region is visited beyond the requested depth. '
     'Dividing a feature list moves exactly the features within the bounds, in their order and at most as many as asked for, and neither loses nor duplicates any.',
     ['inputs', 'histories'],
     'every pattern of regions with data, every feature list and bounds, every limit',
     'Tests regionate a handful of point sets; the file/link agreement has to hold for every pattern of present and absent quadrants.',
     ['src/kml/regionator/*', 'src/kml/convenience/feature_list.cc'],
     [('Regionator', 'src/kml/regionator/regionator.cc'), ('CreateChildRegion', 'src/kml/regionator/regionator_util.cc'), ('FeatureList', 'src/kml/convenience/feature_list.cc'), ('FeatureListRegionHandler', 'src/kml/regionator/feature_list_region_handler.cc')],
     'regionator', 'abstract interpretation of the recursion over trees of regions with symbolic bounds; list effects',
     'Trees up to three levels (one branch to four), every subset of quadrants; lists of up to four features in every position pattern. A region whose handler gives no feature although it says it has data is not covered.',
     'Interprets the recursion with a handler that answers by the tree and records every saved file; the files, their links, regions and data are compared with the tree.',
     BASE_ASSUME)

prop('C22', 'Builders and lookups put and find every value where it belongs',
     'A convenience function that builds an element puts each value it is given into its own field and nothing else: points, views, boxes, circles that go all the way round, closed outlines, dated placemarks, Atom entries. '
     'A lookup by name, relation, scheme or title gives the first element that matches, and nothing if none does. '
     'Collecting or counting during a parse takes every element once: features outside updates with their style references completed, shared styles by id, counts by type, exactly the linked files an archive lacks.',
     ['inputs'],
     'all arguments of the builders; all small feeds, entries, features and event sequences',
     'Tests call each builder once or twice with values for which swapped or repeated arguments go unnoticed.',
     ['src/kml/convenience/*', 'src/kml/regionator/regionator_util.cc', 'src/kml/engine/bbox.cc'],
     [('convenience.cc', 'src/kml/convenience/convenience.cc'), ('AtomUtil', 'src/kml/convenience/atom_util.cc'), ('KmlFeatureListSaver', 'src/kml/convenience/kml_feature_list_saver.h'), ('KmzCheckLinks', 'src/kml/convenience/kmz_check_links.cc')],
     'builders', 'symbolic value flow (abstract interpretation with opaque arguments) of builders; exhaustive small shapes for lookups and collectors',
     'Every argument an opaque symbol, so each builder is decided for all values; lookups over up to three candidates; event sequences of up to three elements with nesting. Great-circle arithmetic is taken as a function symbol.',
     'Interprets each function with symbolic arguments and reads every field of the result; for lookups and collectors compares with the definition on every small shape.',
     BASE_ASSUME)

prop('C23', 'Imported CSV and GPX data keeps every row, column and point',
     'A line of comma-separated data is split into exactly its columns: quoted columns keep their delimiters, spaces and doubled quotes, others are trimmed, and empty ones count; the data is split into exactly its lines. '
     'Each data line gives one placemark whose position, name, description, ids and extended data are the columns the header names, or is reported with a status saying why not, and stopping is obeyed. '
     'Each GPX track point with a position is handled once with its own position, altitude and time and never with those of another point.',
     ['inputs'],
     'every CSV line, header and row; every sequence of GPX elements',
     'Tests hold a dozen literal lines; quote, delimiter and white-space combinations at the ends of a line, and state carried from one point to the next, are not sampled.',
     ['src/kml/base/string_util.cc', 'src/kml/base/csv_splitter.cc', 'src/kml/convenience/csv_parser.cc', 'src/kml/convenience/csv_file.cc', 'src/kml/convenience/gpx_trk_pt_handler.h'],
     [('SplitQuotedUsing', 'src/kml/base/string_util.cc'), ('CsvParser', 'src/kml/convenience/csv_parser.cc'), ('GpxTrkPtHandler', 'src/kml/convenience/gpx_trk_pt_handler.h')],
     'imports', 'abstract interpretation over all schematic lines up to a length, with buffer bounds; event-sequence analysis of handlers',
     'Lines: all texts of up to five characters over letter, delimiter, quote and blank for four delimiters, and longer samples; malformed quoting is only required to stay within its buffer. Headers of up to eight columns, up to four rows; up to three track points.',
     'The splitter is interpreted on an allocated buffer whose size and every access are tracked; the parser with a splitter that yields given rows and a handler that records; the GPX handler on event sequences with number texts opaque.',
     BASE_ASSUME + ['number texts are read as decided by C19'])

prop('C24', 'Texts, attribute lists, files and dates keep their contents',
     'Splitting a text at a separator and joining the parts with it gives the text again, and comparisons look at every character. '
     'An attribute list is a map from names to values: creating, setting, cutting, merging, copying, splitting off a prefix and writing it change or show exactly the names concerned. '
     'A file is read or written completely or the failure is reported, temporary files are unique and leave nothing open, paths are joined and split without loss, and dates are written in the standard form and counted in seconds from 1970, before it too.',
     ['inputs', 'fault_sequences'],
     'every text and separator; every attribute list and operation; every file size, chunking and I/O error; every date',
     'Tests use short files on a working disk, recent dates and one-character separators; errors while reading or closing and other sizes are not sampled.',
     ['src/kml/base/string_util.cc', 'src/kml/base/attributes.cc', 'src/kml/base/file.cc', 'src/kml/base/file_posix.cc', 'src/kml/base/date_time.cc'],
     [('SplitStringUsing, StringEndsWith, StringCaseEqual', 'src/kml/base/string_util.cc'), ('Attributes', 'src/kml/base/attributes.cc'), ('File', 'src/kml/base/file.cc'), ('DateTime', 'src/kml/base/date_time.cc')],
     'texts', 'abstract interpretation: schematic texts, map effects, stream typestate with injected failures, linear arithmetic over date fields',
     'Texts of up to five characters for six separators; attribute lists of up to four names; files of eight sizes around the buffer size with an error at any of three places; 240 months between 1901 and 2101 with day and time symbolic.',
     'The helpers are interpreted on symbolic values; a stream is a typestate whose open, read, write and close may each fail; the result of the date computation is compared as a linear form in day, hour, minute and second.',
     BASE_ASSUME + ['strptime, strftime, mkstemp and the file streams behave as specified'])

prop('C25', 'A schema file is indexed as declared and every question is answered',
     'Every element, type, base, child, enumeration value and alias a schema declares is found under its name exactly as declared, whatever the order and nesting of the declarations. '
     'The children, the type and the bases of an element, and the elements of a type, are those that follow from the declarations, with references resolved in the target namespace. '
     'No document, however incomplete or circular, makes reading or asking fail to end or use something that is not there.',
     ['inputs'],
     'every schema document and every query on it',
     'Tests use well-formed excerpts of one schema; anonymous types, unresolved references, missing or circular bases and other orders are not sampled.',
     ['src/kml/xsd/xsd_file.cc', 'src/kml/xsd/xsd_handler.cc', 'src/kml/xsd/xsd_element.cc', 'src/kml/xsd/xsd_schema.h', 'src/kml/xsd/xst_parser.cc'],
     [('XsdHandler', 'src/kml/xsd/xsd_handler.cc'), ('XsdFile', 'src/kml/xsd/xsd_file.cc'), ('XstParser', 'src/kml/xsd/xst_parser.cc')],
     'schema', 'abstract interpretation of the event handlers and queries over schematic schema documents against a model of the declarations; null, empty-container and termination tracking',
     'Schematic documents: 25 arrangements of declarations (order, nesting, anonymous types, unresolved and near-miss references, missing, simple and circular bases, chains of up to five types, every primitive type), all queries on each; alias files of up to two arbitrary lines out of eleven kinds.',
     'The handler is interpreted on the event sequence of each document, then every query on the resulting file; each answer is compared with the one that follows from the document.',
     BASE_ASSUME + ['boolean attributes are read as decided by C19, attribute lists as decided by C24'])

prop('C26', 'Requests to web services carry what they are given, answers are kept',
     'A request carries exactly its method, address, headers in order and data; a login keeps exactly the token of the answer and adds it to later requests. '
     'A service asks for its feed at its own address, posts entries and media with their own title, type and data, and reports every failed request as a failure. '
     'Every feature of every entry of every page of a feed is delivered once, in order, and searches name the sides of the box in the order the service expects.',
     ['inputs', 'fault_sequences'],
     'every answer, failure, feed, page chain and box',
     'Tests answer with canned data that always succeeds; failing requests, answers of the wrong kind and feeds of several pages are not sampled.',
     ['src/kml/convenience/http_client.cc', 'src/kml/convenience/google_maps_data.cc', 'src/kml/convenience/google_doc_list.cc', 'src/kml/convenience/google_spreadsheets.cc', 'src/kml/convenience/google_picasa_web.cc', 'src/kml/convenience/atom_util.cc'],
     [('HttpClient', 'src/kml/convenience/http_client.cc'), ('GoogleMapsData', 'src/kml/convenience/google_maps_data.cc'), ('AtomUtil::GetNextFeed', 'src/kml/convenience/atom_util.cc')],
     'web', 'abstract interpretation with requests recorded as effects and answered by every kind of answer, including failure',
     'Feeds of up to three entries of five kinds, chains of up to three pages, up to three placemarks; texts symbolic.',
     'Sending is a recorded effect whose answer is chosen by the case; parsing an answer yields a feed, an entry or nothing; what is sent and returned is compared with what was given.',
     BASE_ASSUME + ['a client derived from the library sends what it is asked to send', 'elements are built and written as decided by C02 and C07'])

prop('C27', 'A whole document is read as its tree and written with all it needs',
     'A document that is read gives the tree it describes, each element, field, text and attribute once, with placemarks written in the name of an old schema turned into placemarks that hold the same data. '
     'A file that is written starts with the header of its encoding and declares on its root, under their standard addresses, the namespaces of every element and field below it, keeping those already declared. '
     'The features of a document are reached from its root once each, in order, and names in a namespace are read under the prefix known for it.',
     ['inputs'],
     'every document, nesting, namespace declaration and place of an extension field',
     'Tests write a few documents whose extension content is a complex element; fields of other namespaces alone, old schema placemarks with other data and further nestings are not sampled.',
     ['src/kml/engine/kml_file.cc', 'src/kml/engine/find_xml_namespaces.cc', 'src/kml/base/xml_namespaces.cc', 'src/kml/base/xmlns.h', 'src/kml/base/expat_handler_ns.cc', 'src/kml/dom/kml_handler.cc', 'src/kml/dom/kml_handler_ns.cc', 'src/kml/engine/feature_visitor.cc', 'src/kml/engine/parse_old_schema.cc'],
     [('KmlFile::SerializeToString', 'src/kml/engine/kml_file.cc'), ('FindAndInsertXmlNamespaces', 'src/kml/engine/find_xml_namespaces.cc'), ('KmlHandler', 'src/kml/dom/kml_handler.cc'), ('VisitFeatureHierarchy', 'src/kml/engine/feature_visitor.cc')],
     'documents', 'abstract interpretation of reader, writer and namespace search over every element class with every kind of child and over schematic documents with symbolic texts',
     'Every element class as root, with each child of another namespace and one child per field below it; 26 schematic documents with symbolic texts; feature trees of up to four levels.',
     'The program builds, reads and writes the elements in the interpreter; the set of types written is compared with the declarations on the root, and the tree written with the tree of the document.',
     BASE_ASSUME + ['the XML parser reports the elements of a document in order, as expat does', 'values are converted as decided by C05 and C19'])

prop('C28', 'Nothing is remembered between calls: documents and objects are independent',
     'What a call does depends only on its arguments and on the objects it is given: no call keeps anything of its arguments, of an object or of a document in storage shared by all calls. '
     'What all calls share, such as tables and the factory, never changes once it is made. '
     'Settings of the process, such as the file mode mask and the locale, are the same after a call as before it on every path, and no outcome depends on the clock or on chance.',
     ['inputs', 'histories'],
     'every sequence of calls, on whatever documents and objects, in whatever order',
     'A test process makes a few calls in one order; what an earlier call leaves behind for a later one shows only in particular sequences.',
     ['src/kml/dom/kml_factory.cc', 'src/kml/dom/xsd.cc', 'src/kml/base/file_posix.cc', 'src/kml/base/localec.cc', 'src/kml/base/time_util.cc'],
     [('KmlFactory::GetFactory', 'src/kml/dom/kml_factory.cc'), ('Xsd::GetSchema', 'src/kml/dom/xsd.cc'), ('File::CreateNewTempFile', 'src/kml/base/file_posix.cc'), ('LocaleC', 'src/kml/base/localec.cc')],
     'state', 'dataflow and effect analysis of every use of static storage and of every call that changes or asks the process, over all functions',
     'Every variable with static storage, every method of the classes of shared objects and every call of a listed process function in every function of the library; no bound on sequences.',
     'Each use of a shared variable is classified as read, write, change through a method or parameter or hand-out, each written value by what of the call it depends on; process settings by a path analysis of the function.',
     ['libraries outside the repository keep nothing of their own', 'process functions are those listed in checks/state.py', 'objects given to a call are changed as their own properties say'])

na('N01', 'Distances, headings and destinations on the globe are accurate',
   'The distance, heading and destination computed for points of the globe agree with those of the sphere of the documented radius to within the precision of the numbers used, for all points including poles, antipodes and the date line.',
   ['inputs'], 'every pair of points, radial, range and elevation',
   'Tests compare a handful of points with known values.',
   ['src/kml/base/math_util.cc'], [('DistanceBetweenPoints', 'src/kml/base/math_util.cc')],
   'Accuracy of floating-point trigonometry is a bound on runtime quantities through sin, asin and atan2; no static argument in reach bounds it, and comparing formulas symbolically would only compare the code with itself.')
na('N02', 'Stored bytes come back unchanged from a compressed archive',
   'What is read from an entry of an archive is, byte for byte, what was stored in it, for every content, compression and archive, and a damaged archive is reported as such.',
   ['inputs'], 'every content and every archive, including damaged ones',
   'Tests store and read a few small files and a few damaged archives.',
   ['src/kml/base/zip_file.cc', 'src/kml/base/contrib/minizip/unzip.c'], [('ZipFile', 'src/kml/base/zip_file.cc')],
   'The bytes pass through the inflate and deflate of an external library and depend on every bit of the content; how the library is called, with which sizes, names and buffers, is decided by C15, what it computes is not decidable from this source.')
na('N03', 'Time and memory stay in proportion to the size of the input',
   'Reading, resolving and writing a document takes time and memory in proportion to its size, whatever its nesting, its entities or its references.',
   ['inputs'], 'every document, however deep and however referenced',
   'Tests read small documents.',
   ['src/kml/dom/kml_handler.cc', 'src/kml/engine/style_resolver.cc', 'src/kml/engine/entity_mapper.cc'], [('KmlHandler', 'src/kml/dom/kml_handler.cc')],
   'The bound depends on runtime sizes, on containers and on expat; the static facts in reach (limits on nesting, on style references and on entry sizes are obeyed) are claimed with C10, C14 and C15, the cost itself is not a static fact.')
