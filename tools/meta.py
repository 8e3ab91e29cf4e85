"""
Generates properties.jsonl and MANIFEST.json from the table below:  python tools/meta.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "src/autosar/xml/"
PBT = "property-based testing: "
TABLE = []


def add(pid, title, statement, over, text, why, files, mechanism, technique, note):
    """One property"""
    TABLE.append({"id": pid, "title": title, "statement": " ".join(statement.split()), "over": over, "text": text,
                  "why": " ".join(why.split()), "files": files, "mechanism": mechanism, "technique": technique,
                  "note": " ".join(note.split())})


add("C01", "What is written is read back unchanged",
    """Any document built from the supported elements, with any combination of their attributes and nested objects and
    any supported schema version, that is written to a string or a file and read again yields a document that is equal
    in every element, attribute, literal, number, reference, order and schema version, without warnings.""",
    ["inputs", "configurations"],
    "all documents over the supported classes, attributes and literals; schema versions 48 to 51; strings and files",
    """Tests write and read one small hand-made element per attribute and never combine attributes, owners, lists of
    several items or schema versions.""",
    [X + "writer.py", X + "reader.py", X + "element.py", X + "enumeration.py"],
    [("element writers", X + "writer.py Writer._write_*"), ("element readers", X + "reader.py Reader._read_*")],
    PBT + "generated documents (class/attribute/literal coverage round robin), oracle: round trip against the generated "
    "value tree",
    """Random documents from a hand-written table of 158 classes; every (class, attribute, literal, DEST) is visited
    several times per run; values are compared through public attributes only.""")

add("C02", "Any text survives writing and reading, as well-formed XML",
    """Whatever characters that XML allows occur in the texts and XML attributes of a document (markup characters,
    quotes, line ends, tabs, control, combining and non-BMP characters, text between inline elements), the written
    document is well-formed UTF-8 XML in which an independent parser finds exactly these texts, and reading it gives
    them back unchanged.""",
    ["inputs"], "all strings of XML 1.0 characters with at least one character other than white space, in every text "
    "and attribute position",
    "Tests use a handful of ASCII words; escaping and mixed content depend on every character and position.",
    [X + "writer.py", X + "reader.py"],
    [("escaping", X + "writer.py _XMLWriter"), ("mixed content", X + "reader.py mixed text readers")],
    PBT + "generated strings in every text position, oracle: expat (independent parser), round trip",
    "Strings are drawn over all ranges of XML characters plus a list of nasty ones; every text position is visited.")

add("C03", "Written XML has the tags, order and values of the AUTOSAR schema",
    """The XML written for a document has exactly the elements, nesting, schema order, XML attributes, reference
    destinations, literals and numbers that the AUTOSAR schema prescribes for the given objects, nothing else, in the
    AUTOSAR name space, with an XML declaration and a schema location that names the schema version of the document;
    without root attributes only the attributes of the root element are left out.""",
    ["inputs", "configurations"],
    "all documents over the supported classes, attributes and literals; schema versions 48 to 51",
    "Tests compare a few literal XML strings; wrong order or tags that the reader also accepts stay unnoticed.",
    [X + "writer.py", X + "enumeration.py", X + "document.py"],
    [("element writers", X + "writer.py Writer._write_*"), ("literals", X + "enumeration.py enum_to_xml_map"),
     ("root element", X + "writer.py Writer._write_document")],
    PBT + "generated documents, oracle: independent table of the schema, expat",
    "The table (tags, order, kinds) is written by hand from the schema and shared with no code under test.")

add("C04", "Single elements are written and read like inside a document",
    """An element written on its own, to a string or a file, is the same XML that it is inside a document, and reading
    that XML on its own gives an equal element without warnings, whatever was written or read with the same instances
    before and whatever has been done with the results.""",
    ["inputs", "histories"], "all instances of the classes that can be written on their own, sequences of several",
    "Tests use this interface with one attribute at a time and a new instance each time.",
    [X + "writer.py", X + "reader.py"],
    [("switchers", X + "writer.py Writer.write_str_elem"), ("switchers", X + "reader.py Reader.read_str_elem")],
    PBT + "generated instances of 132 classes, oracle: schema table and round trip",
    "Classes that the library does not offer on their own are outside.")

add("C05", "ARXML from other tools is read completely",
    """Reading gives exactly the content of a document however it is serialized: name space prefix or default name
    space, any indentation, line ends or none, comments, processing instructions, CDATA sections, character
    references, internal entities, quotes, checksum and time stamp attributes, any notation of the schema location (strict or compact
    schema, with folder, none), decimal, hexadecimal, binary, signed and exponent numbers,
    0/1 or false/true, byte order mark and file encoding. Unknown elements inside packages, elements and their nested
    objects leave everything else unaffected; those directly in a package's element list or in an element are reported
    with file name (full path on request) and line once per tag and document on the standard error output unless
    warnings are switched off. The elements of the schema
    that the reader knows and does not support are passed over, without a report except inside of texts. Of
    administrative data, identifiable elements keep the special data groups: identifier, and key and text of a single SD.""",
    ["inputs", "configurations"], "all serializations of all documents over the supported classes",
    "Tests only read the layout that the library itself writes.",
    [X + "reader.py"],
    [("name space", X + "reader.py Reader._clean_namespace"), ("numbers", X + "reader.py Reader._read_number"),
     ("unknown elements", X + "reader.py Reader._report_unprocessed_elements")],
    PBT + "generated documents in generated serializations, oracle: the generated value tree",
    "The documents are serialized by the check, not by the library.")

add("C06", "Invalid elements are reported with their line and do not spoil the rest",
    """When elements of a document are invalid (unknown literal, malformed or missing number, wrong Boolean, unknown or
    missing reference destination, missing name, contents that don't belong there, an element that can't be in a package, name already taken
    in the package), a lenient read returns all other
    elements complete, in order and unchanged, leaves out the invalid ones and prints file name (full path on request) and line of each. With
    stop-on-error the first invalid element is raised as parse error or duplicate element error with file name and
    line, and the reader can be used for further documents.""",
    ["inputs", "fault_sequences"], "all documents with any number of invalid elements at any place",
    "Tests cover one duplicate and one parse error.",
    [X + "reader.py", X + "enumeration.py"],
    [("error isolation", X + "reader.py Reader._read_package_elements")],
    PBT + "fault injection into generated documents, oracle: value trees of the valid elements",
    "Faults are put at random places of random elements; packages themselves stay valid.")

add("C07", "Reading and writing are deterministic, repeatable and free of side effects",
    """Writing the same document always gives the same bytes and reading the same text always the same content, in any
    order, with new or used reader and writer objects, also after failed reads and writes, at the same time in several
    threads with their own readers and writers, and in any process. What was read is independent: no change of it
    affects what the same reader reads or a writer writes later. Writing never changes the document, an existing file is replaced completely, and writing what was read from a written
    document gives the same text again.""",
    ["histories", "inputs", "schedules"], "all histories of reads, writes and failures on shared reader and writer objects",
    "Tests create a new reader and writer for every element and call them once.",
    [X + "writer.py", X + "reader.py"],
    [("writer state", X + "writer.py Writer._str_open, _open"), ("reader state", X + "reader.py Reader.read_str")],
    PBT + "generated histories on shared instances, oracle: fresh instances, unchanged value trees, other processes",
    "Minus zero and hexadecimal alignments are normalized by reading and excluded.")

add("C08", "References give the path of an object and find() leads back to it",
    """For every named object of a document, however it was built (bottom-up, top-down, through a workspace, with append,
    create and make methods) or read from ARXML: ref() gives the short-name path from the root with the destination of
    its class, root_collection() is the document or workspace that holds it, and find() with that path (with or without
    leading slash) or reference returns this very object for packages, elements, ports, component prototypes,
    connectors, modes, mode transitions, data type elements. Paths that name nothing find nothing, and objects outside
    of a root give no reference. All holds as well after objects inside of elements are renamed and after packages are
    appended to another root.""",
    ["inputs", "histories"], "all nestings of packages and elements and all orders of attaching them",
    "Tests take references of a few element types in one package, built in one order.",
    [X + "element.py", X + "reference.py", X + "document.py", X + "workspace.py", X + "base.py"],
    [("references", X + "element.py ref() of each class"), ("search", X + "element.py find() of each class"),
     ("search from the root", X + "document.py PackageCollection.find"),
     ("parents", X + "element.py ARObject.root_collection, Identifiable.parent")],
    PBT + "generated documents with generated construction order, oracle: the paths of the generated tree",
    "Objects that no find() reaches by design (ports interfaces' parts, internal behavior) are checked for ref() only.")

add("C09", "Different ways to build an element give the same element",
    """Constructor lists, single items, tuples, append and create methods (before or after the element is attached to a
    package), references as text or as reference objects of the same destination, and descriptions as plain text or
    (language, text) give the same attributes, the same XML and the same references to inner objects, also where the inner
    objects belonged to another element before. Lists that are given
    stay unchanged and belong to the caller: changing them afterwards does not change the element.""",
    ["inputs", "histories"], "all elements over the supported classes and all choices of ways to give their attributes",
    "Tests construct each element in one way and never compare two ways.",
    [X + "element.py"],
    [("constructors", X + "element.py _assign_optional, _assign_optional_strict of ARObject"),
     ("append and create methods", X + "element.py append_*, create_*, make_* of each class")],
    PBT + "generated elements with generated construction forms, differential oracle: constructor lists",
    "The table of forms for each attribute (lib/altforms.py) is frozen from the documented constructors and methods.")

add("C10", "Packages form a tree of unique names whatever the order of operations",
    """In every history of append, create_package, make_packages, find, filter, filter_regex on documents, workspaces and
    packages: an operation succeeds exactly if the name is free in its package (elements and sub-packages share one name
    space) and the object may be there, failed operations change nothing, packages and elements keep their order of insertion, make_packages creates
    only what is missing and returns the packages of the paths, an element that is appended to another package has that as parent, filters return the matching elements in order, and
    parents, references, find() and the written XML always agree with the tree.""",
    ["histories", "inputs"], "all histories of package operations",
    "Tests create a few packages in one order and never let names collide between elements and packages.",
    [X + "element.py", X + "document.py", X + "workspace.py"],
    [("packages", X + "element.py Package.append, create_package, make_packages, find, filter, filter_regex"),
     ("collections", X + "element.py PackageCollection")],
    PBT + "stateful, oracle: a tree of ordered names as reference model",
    "Histories of up to 40 operations over eight names; empty path segments are not generated.")

add("C11", "Workspaces resolve namespaces and package keys and apply templates once",
    """get_package_ref_by_role gives the normalized path of the role in the namespace (roles by both names, own roles, base
    path, relative and absolute paths) or a KeyError (namespace) or ValueError (role). add_element, find_element and
    get_package use the package of the key in the current package map. Applying a template returns the element in the
    package of its role: an existing element is returned as it is, otherwise its dependencies are applied first in order,
    then create runs once with package, workspace, dependencies by reference and the arguments, and the element is
    appended (unless the template does not want it); failures add nothing.""",
    ["histories", "inputs", "configurations"], "all namespaces, package maps, graphs of templates and histories of calls",
    "Tests apply single templates once in one namespace with all packages missing.",
    [X + "workspace.py", X + "template.py"],
    [("namespaces", X + "workspace.py Namespace, Workspace.get_package_ref_by_role"),
     ("package map", X + "workspace.py create_package_map, add_element, find_element, get_package"),
     ("templates", X + "workspace.py Workspace.apply, _apply_element_template, _create_dependencies")],
    PBT + "stateful, oracle: a model of namespaces, elements and template calls",
    "Relative base paths and roles that resolve to the root are not generated.")

add("C12", "Workspaces write exactly the configured documents and stay unchanged",
    """write_documents writes, for each created document, one file with its packages in order below packages with the names
    of their parents, and for each mapping one file per element of the given types with the elements that have its name
    and a suffix, sorted by name, each complete, with the schema version, in the document root. Nothing else is written,
    older files of these names are replaced. Writing can be repeated after any change or failure (missing folder, path of an element) and reflects the current
    content; packages and elements still belong to the workspace with parents, references and paths unchanged.""",
    ["histories", "inputs", "fault_sequences"], "all workspace contents, document configurations and histories of writes",
    "Tests write a document once and look at its text only.",
    [X + "workspace.py", X + "writer.py"],
    [("documents", X + "workspace.py Workspace._write_document_from_config"),
     ("mappings", X + "workspace.py Workspace._gen_package_to_document_mapping")],
    PBT + "stateful, oracle: value trees of the expected documents and of the workspace",
    "Documents whose packages contain each other are not generated.")

add("C13", "Configuration files do the same as the corresponding calls",
    """A workspace that loads a TOML configuration (by constructor or load_config, one or several files, any notation and
    order of sections) has the same namespaces, behavior settings, documents and document mappings as one that is set up
    by create_namespace, create_document, create_document_mapping and behavior_settings, and writes the same files.
    Configurations with a mistake (missing or wrong package_ref, element_types, suffix_filters, role or setting) are
    rejected with KeyError, ValueError or TypeError.""",
    ["configurations"], "all configurations in all TOML notations",
    "No test loads a configuration file.",
    [X + "workspace.py", X + "element.py"],
    [("configuration", X + "workspace.py Workspace.load_config, _create_namespace_from_config, "
      "_create_document_from_config, _create_document_mapping_from_config"),
     ("behavior settings", X + "element.py BehaviorSettings")],
    PBT + "generated configurations, differential oracle: the corresponding calls and their written files",
    "TOML itself is decoded by the standard library.")

add("C14", "Enumeration literals and reference destinations are those of the schema",
    """Every literal of every enumeration converts to its XML text and back (with alternative spellings accepted) in every
    schema version that has it and is rejected with a VersionError in the others; every other text is rejected with a
    ParseError. Package roles have two names each. Every reference class accepts exactly its destinations, has a default
    only if there is one destination, keeps its path, and port references know whether they are provided or required.""",
    ["inputs", "configurations"], "all literals, schema versions, texts and pairs of reference class and destination",
    "Tests convert a few literals in one direction.",
    [X + "enumeration.py", X + "reference.py", X + "base.py"],
    [("enumerations", X + "enumeration.py xml_to_enum, enum_to_xml"), ("references", X + "base.py BaseRef")],
    "exhaustive enumeration of literals and destinations, property-based testing of unknown literals, oracle: frozen table",
    "The table (lib/literals.json) was frozen from the reviewed code since the XSD is not available offline.")

add("C15", "Values of wrong types are rejected and change nothing",
    """Constructors and append methods raise TypeError or ValueError for values that can't be an attribute: other objects,
    references with a destination that is not allowed (or as text if the destination would be ambiguous), literals of other
    enumerations, negative sizes, wrong items at any place of a list, for all classes and attributes that check their
    values today. Alignments and display formats are accepted if and only if the whole text follows the syntax of the
    AUTOSAR schema. No constructor leaves out a value silently. The object that was to be changed stays unchanged, and valid
    values are still accepted.""",
    ["inputs"], "all attributes of all classes with all kinds of wrong values",
    "Tests construct elements with valid values only.",
    [X + "element.py", X + "base.py"],
    [("type checks", X + "base.py ARObject._assign, _assign_optional_strict, _check_and_set_reference"),
     ("appending", X + "element.py append_* of each class")],
    PBT + "generated objects with one wrong value, oracle: frozen table of rejected values",
    "Attributes that accept anything on the pinned tree (about a dozen) are not in the table lib/rejects.json.")


add("C16", "Builders make the values, computations and limits that were asked for",
    """make_value, make_value_with_check, make_constant, make_value_table, make_rational, make_physical, make_internal and
    check_value give, for all values (numbers, texts, nested arrays and records with labels, value references) and
    optional arguments, exactly the specification that the arguments describe, in order, with the right open and closed
    limits; the result survives writing and reading, the arguments stay unchanged, a value outside of the limits or
    malformed data is rejected with an exception, and a value at a closed limit is not.""",
    ["inputs"], "all values and optional arguments that the builders document",
    "Tests use one or two flat values per builder.",
    [X + "element.py"],
    [("values", X + "element.py ValueSpecification.make_value, make_value_with_check, ConstantSpecification.make_constant"),
     ("computations", X + "element.py CompuMethod / Computation make_value_table, make_rational"),
     ("limits", X + "element.py DataConstraint.make_physical, make_internal, check_value")],
    PBT + "generated calls, oracle: reference model of the documented result and round trip",
    "Argument forms that are not documented (label without value and so on) are not generated.")


add("C17", "Ports are created with the com-specs that were asked for, and are found",
    """create_p_port, create_r_port, create_pr_port and their aliases add one port with the given name, attributes and
    interface reference, whose com-specs are exactly the ones that the arguments describe (keyword dictionaries for one
    element or for each of several elements or operations, lists of pairs, objects), of the class that the interface and
    the queueing of the element demand, each with the reference to its element, operation or mode group; unknown elements
    and unsuitable data are rejected and leave no port; the queries of a component return exactly the ports of the kind
    and name asked for and the elements, operations and mode groups of their interfaces. All holds as well after writing
    and reading.""",
    ["inputs", "histories"], "all port interfaces, com-spec attributes, argument forms and sequences of ports",
    "Tests create one port with one com-spec of few attributes.",
    [X + "element.py"],
    [("ports", X + "element.py SwComponentType.create_p_port, create_r_port, create_pr_port"),
     ("com-specs", X + "element.py ProvidePortComSpec/RequirePortComSpec.make_from_port_interface"),
     ("queries", X + "element.py SwComponentType.find*, get_*_in_port")],
    PBT + "generated interfaces and calls, oracle: reference model of the component, before and after a round trip",
    "Pairs for an interface with a single element and com-specs of unknown types are not generated.")


add("C18", "Compositions get the component prototypes and connectors that were asked for",
    """create_component_prototype adds one prototype with the given or the type's name and a reference to the type.
    create_connector adds, whatever the order of the two port references, exactly one connector of the kind that the two
    ports demand (assembly, delegation, pass-through), with the provided port on the provided side and references that
    lead to the two ports and their component prototypes, and returns it; it raises ValueError and adds nothing for
    unknown or malformed names, two require-ports or two provide-ports on the same level, and connectors that exist.
    Prototypes and connectors are found by path. All holds as well after writing and reading.""",
    ["inputs", "histories"], "all sets of components, ports and prototypes and sequences of connectors",
    "Tests create one connector of each kind between fixed ports.",
    [X + "element.py"],
    [("connectors", X + "element.py CompositionSwComponentType.create_connector, _analyze_port_ref, _create_*_connector"),
     ("prototypes", X + "element.py CompositionSwComponentType.create_component_prototype, find")],
    PBT + "generated histories, oracle: reference model of the composition after each call and after a round trip",
    "Assembly connectors with PR-ports and delegation between a P- and an R-port are not judged.")


add("C19", "Runnables get exactly the port access that was asked for",
    """create_port_access with any documented text ("port", "port/element", each with or without a prefix in upper or lower
    case), alone, in lists and with dictionaries of further attributes, adds for every entry exactly one access point of
    the kind that the interface, the side of the port and the prefix demand (data read and write access, receive points by
    argument or value, send points, parameter access, mode access, mode switch points, synchronous and asynchronous server
    calls), with references that lead to the port and to its element, the given name or the one made from the prefix of the
    settings (as they are at this time), the port and the element, unique in its list, and the given attributes; nothing else changes. Unknown ports,
    elements and prefixes, and names that can't be made, are rejected. All holds as well after writing and reading.""",
    ["inputs", "histories"], "all port interfaces, settings and sequences of accesses",
    "Tests create one access of each kind between fixed ports.",
    [X + "element.py"],
    [("access", X + "element.py RunnableEntity.create_port_access, _create_*_access, _create_*_point"),
     ("settings", X + "workspace.py Workspace.behavior_settings")],
    PBT + "generated workspaces and sequences of calls, oracle: reference model of the runnable after every call",
    "Data and mode access through PR-ports and prefixes that do nothing are not generated.")


add("C20", "Events are created with the names, runnables and targets that were asked for",
    """The create_*_event methods of SwcInternalBehavior (background, init, timing, data received, data receive error,
    operation invoked, mode manager error, mode switch) append exactly one event of their class that starts the named
    runnable, has the given attributes and refers to the named port and element, operation, mode group, mode or pair of
    modes. Its name is the given one or the one made from the prefix of the settings (as they are at this time), the runnable and the target; a taken
    name gets a number: the event that has it becomes name_0, every further one the highest number plus one; all names
    are different and no other event is renamed. Unknown runnables, ports, elements and modes, wrong sides and interfaces,
    ambiguous texts and missing prefixes are rejected and change nothing. All holds as well after writing and reading.""",
    ["inputs", "histories"], "all kinds of events, targets, names and settings and sequences of calls",
    "Tests create one event of each kind in an empty behavior.",
    [X + "element.py", X + "workspace.py"],
    [("events", X + "element.py SwcInternalBehavior.create_*_event, _get_swc_mode_switch_event_args"),
     ("names", X + "element.py make_unique_name_in_list")],
    PBT + "generated workspaces and sequences of calls, oracle: reference model of the behavior after every call",
    "Events for sent or written data are not implemented in the library.")


add("C21", "Behaviors get the runnables, exclusive areas and port options asked for",
    """create_internal_behavior gives the component one behavior with the given or the default name and the given
    attributes, also when another one is assigned. create_exclusive_area and create_runnable append one element with the
    given attributes; the symbol of a runnable is the given one, its name by default, or absent for None; exclusive areas
    given by name become references to the areas of the behavior and unknown names are rejected. create_port_api_options
    gives exactly the named ports (all for "*") options with the given values and replaces the ones they had; unknown names
    are rejected. References and find_runnable lead to the elements. All holds as well after writing and reading.""",
    ["inputs", "histories"], "all attributes of behaviors, areas, runnables and options and sequences of calls",
    "Tests create one element of each kind with few attributes.",
    [X + "element.py"],
    [("behavior", X + "element.py AtomicSoftwareComponentType.create_internal_behavior, internal_behavior"),
     ("runnables", X + "element.py SwcInternalBehavior.create_runnable, find_runnable"),
     ("options", X + "element.py SwcInternalBehavior.create_port_api_options")],
    PBT + "generated sequences of calls, oracle: reference model of the behavior after every call and after a round trip",
    "Lists of ports with some unknown names are not generated, as they have a partial effect.")


add("C22", "The implementation model has the data types that the XML describes",
    """ImplementationModel.create_from_element and create_from_ref give, for base types and for implementation data types of
    the categories VALUE, TYPE_REFERENCE, ARRAY, STRUCTURE and DATA_REFERENCE, one object of the right class per type,
    whatever the number and order of the calls, with reference, name, symbol, type emitter, native declaration, dimensions,
    element properties, members in order and the objects of the types referred to; the model holds exactly the types asked
    for and the ones they need; structures can have pointers to themselves. Unknown references and types whose
    dependencies are missing raise KeyError and leave the model as it was, so that the call can be repeated. The dependency trees belong to the types asked for as
    sources and the creation order has every type after the ones it needs.""",
    ["inputs", "histories"], "all sets of types and sequences of requests", "Tests create one or two types of each category.",
    ["src/autosar/model/implementation.py", "src/autosar/model/element.py"],
    [("model", "src/autosar/model/implementation.py ImplementationModel.create_from_element, create_from_ref"),
     ("order", "src/autosar/model/implementation.py gen_type_dependency_trees, get_type_creation_order")],
    PBT + "generated type graphs, oracle: the described types, compared attribute by attribute",
    "Properties of the outer dimensions of arrays and dependency trees with pointers are not judged.")


add("C23", "The generated type header defines exactly the needed C types",
    """TypeGenerator.write_type_header and write_type_header_str give the same C header, which a C compiler (and a C++
    compiler) accepts, also when it is included twice, next to a Rte.h that has only the types the header isn't responsible
    for (base types without native declaration, types with another emitter than RTE). It defines every type asked for and
    every one these need exactly once and after the ones it needs, and each is the C type that the description means: native
    type, array element and dimensions, members with their types and order. A generator that was used before, when fewer
    types had been asked for, gives the same header as a new one.""",
    ["inputs", "histories"], "all sets of values, references, arrays and structures and choices of the types asked for",
    "Tests compare the text of single types.",
    ["src/autosar/generator/type_generator.py", "src/autosar/model/implementation.py"],
    [("header", "src/autosar/generator/type_generator.py TypeGenerator"),
     ("order", "src/autosar/model/implementation.py gen_type_dependency_trees, get_type_creation_order")],
    PBT + "generated type graphs, oracle: gcc on static assertions that are derived from the description",
    "Pointers and unions are not generated by the library; symbols are not used by it.")


add("C24", "Numbers keep their exact value and the notation that was asked for",
    """Every number that is written, whatever its size and precision and whichever attribute it belongs to, is a text that
    denotes exactly that number, and reading gives the number again (the nearest floating point number where the notation is
    that of one). A NumericalValue in decimal, hexadecimal, binary or
    scientific format is written in this notation; hexadecimal and binary ones are read with their format, so that writing
    again gives the same text. All this does not depend on the decimal context of the application. Octal numbers (017) are
    read as such. NumericalValue and PositiveIntegerValue accept exactly the texts that denote a number or a
    non-negative integer, and have its value.""",
    ["inputs"], "all integers and floats, formats and numeric attributes", "Tests use small numbers.",
    [X + "writer.py", X + "reader.py", X + "element.py"],
    [("writing", X + "writer.py _format_float, _format_number, _format_numerical_value"),
     ("reading", X + "reader.py _read_number, _read_integer, _read_value_list, _read_sw_values_group"),
     ("wrappers", X + "element.py NumericalValue, PositiveIntegerValue")],
    PBT + "generated numbers with random bit patterns, oracle: independent parser of number texts, round trip",
    "Negative hexadecimal numbers (not in the standard) keep their value but not their format; the sign of zero is ignored.")

add("C25", "Damaged elements are reported and left out, or can be written and read again",
    """However the contents of an element in a document are damaged (parts missing, repeated, renamed, moved, in another order,
    with other texts or attributes), reading the document leniently raises nothing and gives all other elements,
    unchanged and in order. The damaged element is left out exactly if an error is reported with its line; reading the
    same document with stop_on_error raises ParseError or DuplicateElement in exactly these cases. An element that was
    accepted can be written; nothing is written that the document did not contain; what is written is read without any
    report and written identically again. Empty texts are texts, an empty SHORT-NAME or reference is an error.""",
    ["inputs", "fault_sequences"], "all element types, places and kinds of damage", "Tests read valid elements.",
    [X + "reader.py", X + "writer.py", X + "base.py"],
    [("isolation", X + "reader.py _read_package_elements, _element_error_message"),
     ("reading", X + "reader.py _read_* methods"), ("writing", X + "writer.py _write_* methods")],
    PBT + "structural fuzzing of one element (mutations of the XML tree), oracle: the document without it, strict reading, "
    "round trip of what was accepted",
    "Whether a damaged element is accepted is not judged where the damage leaves it readable (e.g. unknown elements are skipped "
    "with a report).")

add("C26", "What objects say about themselves agrees with what is stored in them",
    """For every object, built or read: is_empty is true exactly while none of its attributes is set (whatever was set
    before); short_name is the name; content_type of a CompuScale names the kind of its content; is_queued of data definition
    properties and variables tells whether the implementation policy (of the first variant) is QUEUED; is_composite
    tells record and array types from primitive ones; SwDataDefProps has the length, order and items of its variants; str() of a
    reference is its path, of a superscript "^" and its text, of a unit name the texts of its parts (a ValueError
    if it has a subscript); a port reference leads to a provided or required port (or both) according to its DEST, and
    the tag of a delegated port follows from it; provide_ports, require_ports and pr_ports are the ports of this direction
    in order; check_value of constraints accepts a value exactly if it is inside the open or closed limits; schema_file
    is the file of the schema version.""",
    ["inputs"], "all classes and contents", "Tests call a few of these with one value.",
    [X + "element.py", X + "base.py", X + "reference.py", X + "document.py"],
    [("emptiness", X + "base.py is_empty, is_empty_with_ignore"), ("limits", X + "element.py LimitObject.check_value"),
     ("queries", X + "element.py is_queued, content_type, is_composite, provide_ports, xml_tag, __str__"),
     ("references", X + "reference.py PortPrototypeRef")],
    PBT + "generated objects of all classes, oracle: the generated contents and stored attributes",
    "is_empty of CompuScale and NotAvailableValueSpecification, which have attributes with defaults, is not judged.")


add("C27", "Work goes on after saving and reading as if the workspace had been kept",
    """A workspace that is written (one document or several, as text, files or by write_documents) and read into a new
    workspace with the same behavior settings behaves afterwards as the original one: every later step (creating packages,
    elements, ports with com-specs, exclusive areas, runnables, port access, events, port API options, prototypes, connectors,
    constants, data types; adding to interfaces; searching) gives the same result or the same kind of exception. The
    documents, the objects and references found for all paths and the type header of the data types stay the same.""",
    ["histories", "inputs"], "all histories of building steps and all points at which the work is saved and read",
    "Tests build and write, or read; none goes on building with what was read.",
    [X + "element.py", X + "workspace.py", X + "reader.py", X + "writer.py", X + "document.py"],
    [("reading", X + "reader.py"), ("building", X + "element.py create_*, find*, append*"),
     ("searching", X + "element.py PackageCollection, Package, find")],
    PBT + "generated histories, differential: the same history with and without saving and reading",
    "What both workspaces do wrong in the same way is left to the other properties.")


add("C28", "Reading a document takes in nothing but this document",
    """Whatever a file or text names besides its own contents (external DTD subsets, external general and parameter
    entities in text, attributes or between elements, entities and attribute defaults of a DTD, XInclude elements, notations,
    style sheets, schema locations, xml:base; by path, file URL or network URL), the Reader opens no other file, sends no
    request, and nothing of the other resource becomes part of a document or a message. If nothing refers to the other resource,
    the document is read exactly as without naming it.""",
    ["inputs", "configurations"], "all documents and ways to name another resource in it",
    "No test reads a document that names something else.",
    [X + "reader.py"],
    [("parsers", X + "reader.py read_file, read_str, read_str_elem, _create_parser")],
    PBT + "generated documents with references to canary files and a counting server, oracle: the document without them, canary text, audit hook",
    "What libxml2 opens itself is observed by its effects (contents, requests), what Python opens by an audit hook.")


def main():
    """Write the files"""
    have = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "lib", "props")) if f.startswith("c") and
            f.endswith(".py")}
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in TABLE:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}) + "\n")
    checks = []
    for p in TABLE:
        assert p["id"] in have, p["id"]
        cmd = f"/opt/venv/bin/python -B checks/run.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks", sorted(have - {p["id"] for p in TABLE}))


if __name__ == "__main__":
    main()
