"""C04: single elements written and read on their own"""
import os
import xml.etree.ElementTree as StdET
import argen as g
import arschema as s
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import doc
from doc import CLASSES, Node, ar_reader, ar_writer

ID = "C04"
SCRATCH = ""
QUICK, THOROUGH = 40000, 500000
RULE = """A case is one random instance of a class that the library reads and writes on its own (148 classes, of which some with several tags, four of them references; their
attributes and literals visited round robin). Writer.write_str_elem must give the XML of the schema table,
Reader.read_str_elem an equal element; ARElements also through write_file_elem. One Writer and one Reader process
several elements, also after failed or other operations and after the results of the first reading and writing were emptied. Non-trivial: at least two attributes other than the name are set."""

# written without tag
PLAIN = """
Annotation ApplicationArrayDataType ApplicationError ApplicationPrimitiveDataType ApplicationRecordDataType
ApplicationRecordElement ApplicationSoftwareComponentType ApplicationValueSpecification ArgumentDataPrototype
ArrayValueSpecification AssemblySwConnector AsynchronousServerCallPoint AsynchronousServerCallResultPoint
AsynchronousServerCallReturnsEvent BackgroundEvent Break ClientComSpec ClientServerInterface
ClientServerOperation Code CommunicationBufferLocking CompositionSwComponentType CompuMethod CompuRational
CompuScale ConstantReference ConstantSpecification DataConstraint DataConstraintRule DataReceiveErrorEvent
DataReceivedEvent DataSendCompletedEvent DataTypeMap DataTypeMappingSet DataWriteCompletedEvent
DelegationSwConnector E2EProfileCompatibilityProps EmphasisText EndToEndTransformationComSpecProps
ExclusiveAreaRefConditional ExecutableEntityActivationReason ExternalTriggerOccurredEvent
ExternalTriggeringPoint ImplementationDataType ImplementationDataTypeElement IndexEntry InitEvent
InternalConstraint InternalTriggerOccurredEvent InternalTriggeringPoint InvalidationPolicy LanguageLongName
LanguageParagraph LanguageVerbatim ModeAccessPoint ModeDeclaration ModeDeclarationGroup ModeSwitchInterface
ModeSwitchPoint ModeSwitchReceiverComSpec ModeSwitchSenderComSpec ModeSwitchedAckEvent ModeSwitchedAckRequest
ModeTransition MultiLanguageParagraph MultiLanguageVerbatim NonqueuedReceiverComSpec NonqueuedSenderComSpec
NotAvailableValueSpecification NumericalValueSpecification NvDataInterface NvProvideComSpec NvRequireComSpec
OperationInvokedEvent PRPortPrototype ParameterAccess ParameterInAtomicSwcTypeInstanceRef ParameterInterface
ParameterProvideComSpec ParameterRequireComSpec PassThroughSwConnector PhysicalConstraint PortApiOption
PortDefinedArgumentValue ProvidePortPrototype QueuedReceiverComSpec QueuedSenderComSpec
RModeGroupInAtomicSwcInstanceRef ReceptionComSpecProps RecordValueSpecification RequirePortPrototype
RunnableEntity RunnableEntityArgument ScaleConstraint SenderReceiverInterface ServerComSpec Subscript
Superscript SwAddrMethod SwAxisCont SwBaseType SwBitRepresentation SwComponentPrototype
SwDataDefPropsConditional SwPointerTargetProps SwTextProps SwValueCont SwValues SwcImplementation
SwcInternalBehavior SwcModeManagerErrorEvent SwcModeSwitchEvent SynchronousServerCallPoint TechnicalTerm
TextValueSpecification TimingEvent TransformerHardErrorEvent TransmissionAcknowledgementRequest
TransmissionComSpecProps Unit ValueList VariableInAtomicSWCTypeInstanceRef WaitPoint
""".split()
# the tag depends on the owner and is given by the caller
TAGGED = """
ArVariableInImplementationDataInstanceRef AutosarEngineeringObject AutosarParameterRef AutosarVariableRef
MultiLanguageOverviewParagraph MultilanguageLongName SingleLanguageUnitNames SymbolProps VariableAccess
""".split()
# written with a tag of several
OTHER = {"DocumentationBlock": ["ANNOTATION-TEXT"], "Computation": ["COMPU-INTERNAL-TO-PHYS"],
         "DataFilter": ["DATA-FILTER"], "RModeInAtomicSwcInstanceRef": ["DISABLED-MODE-IREF"],
         "ModeDeclarationGroupPrototype": ["MODE-DECLARATION-GROUP-PROTOTYPE"],
         "ModeErrorBehavior": ["MODE-MANAGER-ERROR-BEHAVIOR", "MODE-USER-ERROR-BEHAVIOR"],
         "PInComposition": ["PROVIDER-IREF"], "RInComposition": ["REQUESTER-IREF"], "ModeRequestTypeMap": [None]}
# read with the name of the type
TYPED = {"ApplicationArrayElement": [None], "VariableDataPrototype": ["VARIABLE-DATA-PROTOTYPE", "BULK-NV-BLOCK", "RAM-BLOCK"],
         "ParameterDataPrototype": ["PARAMETER-DATA-PROTOTYPE", "ROM-BLOCK", "PARAMETER-DATA-PROTOTYPE"]}
# references that are written on their own
REFS = {"SwBaseTypeRef": "BASE-TYPE-REF", "PhysicalDimensionRef": "PHYSICAL-DIMENSION-REF",
        "ApplicationDataTypeRef": "APPLICATION-DATA-TYPE-REF", "ConstantRef": "CONSTANT-REF"}
BEFORE = ["failed write", "failed document", "document", "failed file", "failed read", "malformed", "read document",
          "read typed", "unknown type"]
FOCI = [f for f in doc.FOCI if f[0] in set(PLAIN) | set(TAGGED) | set(OTHER) | set(TYPED)]
FOCI += [("ModeRequestTypeMap", "implementation_data_type"), ("ModeRequestTypeMap", "mode_group")]
FOCI += [(cls, dest) for cls in REFS for dest in s.REF_DESTS[cls]]


def generate(rng, i, _tier):
    """Case number i"""
    out = []
    for k in range(rng.choice([1, 1, 2, 3])):
        focus = FOCI[i % len(FOCI)] if k == 0 else rng.choice(FOCI)
        if focus[0] in REFS:
            out.append({"before": None, "ref": [focus[0], g.gen_path(rng), focus[1]]})
            continue
        gen = g.Gen(rng, 51)
        tree = gen.cls(focus[0], rng.choice([0, 1, 1, 2]), rng.choice([0.0, 0.1, 0.3, 0.6, 1.0]), {focus[1]})
        if len(focus) > 2:
            g.force(gen, tree, focus[1], focus[2])
        out.append({"before": rng.choice(BEFORE) if rng.random() < 0.4 else None, "tree": g.uniquify(tree)})
        if rng.random() < 0.3:
            out[-1]["wreck"] = True
        if focus[0] in OTHER or focus[0] in TYPED:
            out[-1]["tag"] = rng.choice((OTHER | TYPED)[focus[0]])
    return out


def nontrivial(case):
    """See RULE"""
    return sum(g.count_attrs(t["tree"]) if "tree" in t else 2 for t in case) >= 3


def labels(case):
    """Distribution"""
    yield "class " + (case[0]["tree"]["$"] if "tree" in case[0] else case[0]["ref"][0])
    yield f"{len(case)} elements"
    for step in case:
        yield f"before: {step['before']}"
        if step.get("wreck"):
            yield "read again after the result was emptied"


def used(before, writer, reader):
    """Something that was done with the writer and the reader before"""
    try:
        if before == "failed write":
            bad = ar_element.DocumentationBlock()
            bad.elements.append(3)
            writer.write_str_elem(bad, "TEXT")
        elif before == "failed document":
            document = ar_document.Document(schema_version=48)
            package = ar_element.Package("A")
            document.append(package)
            package.append(ar_element.DataConstraint("B", [ar_element.DataConstraintRule(5)]))
            package.elements[0].rules.append(3)
            writer.write_str(document, False)
        elif before == "document":
            document = ar_document.Document(schema_version=48)
            document.append(ar_element.Package("A"))
            writer.write_str(document, False)
        elif before == "failed file":
            writer.write_file_elem(ar_element.Break(), os.path.join(SCRATCH, "e.xml"))
        elif before == "failed read":
            reader.read_str_elem("<UNIT><SHORT-NAME>a</SHORT-NAME><FACTOR-SI-TO-UNIT>x</FACTOR-SI-TO-UNIT></UNIT>")
        elif before == "read typed":
            for tag in ("ELEMENT", "VARIABLE-ACCESS", "APPLICATION-RECORD-ELEMENT", "UNIT", "SYMBOL-PROPS"):
                reader.read_str_elem(f"<{tag}><SHORT-NAME>a</SHORT-NAME></{tag}>", "ApplicationArrayElement")
        elif before == "unknown type":
            reader.read_str_elem("<UNIT><SHORT-NAME>a</SHORT-NAME></UNIT>", "NoSuchType")
        elif before == "malformed":
            reader.read_str("<AUTOSAR>")
        elif before == "read document":
            reader.read_str('<AUTOSAR xmlns="http://autosar.org/schema/r4.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-'
                            'instance" xsi:schemaLocation="http://autosar.org/schema/r4.0 AUTOSAR_00048.xsd"/>')
    except Exception:  # pylint: disable=broad-exception-caught
        pass  # this is the point of these steps


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    writer, reader = ar_writer.Writer(), ar_reader.Reader()
    for step in case:
        used(step["before"], writer, reader)
        if "ref" in step:
            d = one_ref(writer, reader, *step["ref"])
            if d:
                return d
            continue
        tree = step["tree"]
        c = CLASSES[tree["$"]]
        obj = c.build(tree)
        tag = [c.tag] if tree["$"] in TAGGED else [step["tag"]] if step.get("tag") else []
        text = writer.write_str_elem(obj, *tag)
        d = s.cmp_xml(c.emit(Node("X"), tree, *tag), StdET.fromstring(text))
        if d:
            return f"write_str_elem({tree['$']}): {d}"
        with doc.captured() as buf:
            again = reader.read_str_elem(text, *([tree["$"]] if tree["$"] in TYPED else []))
        if buf.getvalue():
            return f"read_str_elem({tree['$']}) printed {buf.getvalue().strip()[:300]}"
        d = c.check(again, tree) or doc.shared(again)
        if d:
            return f"read_str_elem({tree['$']}){d}"
        if step.get("wreck"):
            doc.wreck(again)
            again = reader.read_str_elem(text, *([tree["$"]] if tree["$"] in TYPED else []))
            d = c.check(again, tree)
            if d:
                return f"read_str_elem({tree['$']}) of the same text, after the first result was emptied{d}"
            doc.wreck(obj)
            if writer.write_str_elem(c.build(tree), *tag) != text:
                return f"write_str_elem({tree['$']}) of another object with the same values, after the first one was emptied"
            obj = c.build(tree)
        if c.collectable and c.name not in TAGGED:
            path = os.path.join(SCRATCH, "e.xml")
            writer.write_file_elem(obj, path)
            with open(path, "rb") as fh:
                data = fh.read()
            os.unlink(path)
            d = s.cmp_xml(c.emit(Node("X"), tree), StdET.fromstring(data))
            if d:
                return f"write_file_elem({tree['$']}): {d}"
    return None


def one_ref(writer, reader, name, path, dest):
    """A reference on its own"""
    tag = REFS[name]
    kind = s.Ref(name)
    text = writer.write_str_elem(kind.build([path, dest]), *([tag] if name in ("ApplicationDataTypeRef", "ConstantRef")
                                                             else []))
    node = Node("X")
    kind.emit(node, tag, [path, dest])
    d = s.cmp_xml(node.children[0], StdET.fromstring(text))
    if d:
        return f"write_str_elem({name}): {d}"
    with doc.captured() as buf:
        again = reader.read_str_elem(text)
    if buf.getvalue():
        return f"read_str_elem({name}) printed {buf.getvalue().strip()[:300]}"
    d = kind.cmp(again, [path, dest])
    return f"read_str_elem({name}): {d}" if d else None


def shrink(case):
    """Simpler cases"""
    for i, t in enumerate(case):
        if "ref" in t:
            if len(case) > 1:
                yield case[:i] + case[i + 1:]
            continue
        if len(case) > 1:
            yield case[:i] + case[i + 1:]
        if t["before"]:
            yield case[:i] + [{**t, "before": None}] + case[i + 1:]
        for y in g.shrink_steps(t["tree"]):
            yield case[:i] + [{**t, "tree": y}] + case[i + 1:]
