"""
Tables of the AUTOSAR elements supported by cogu/autosar (hand written; see arschema.py).
Line format:  attribute  TAG (or @XML-ATTRIBUTE)  kind  [flags]
"""
import arschema as s
from arschema import Field, Text, MixedCls, TextCls, Cls, ListOf, PyKind, Node, CLASSES, CUSTOM, num_text, num_eq

_I = {
    "ApplicationDataTypeRef": "APPLICATION_ARRAY_DATA_TYPE APPLICATION_COMPOSITE_DATA_TYPE APPLICATION_DATA_TYPE "
                              "APPLICATION_DEFERRED_DATA_TYPE APPLICATION_PRIMITIVE_DATA_TYPE "
                              "APPLICATION_RECORD_DATA_TYPE",
    "ApplicationCompositeElementDataPrototypeRef": "APPLICATION_ARRAY_ELEMENT "
                                                   "APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE "
                                                   "APPLICATION_RECORD_ELEMENT",
    "AutosarDataTypeRef": "ABSTRACT_IMPLEMENTATION_DATA_TYPE APPLICATION_ARRAY_DATA_TYPE "
                          "APPLICATION_COMPOSITE_DATA_TYPE APPLICATION_DATA_TYPE APPLICATION_DEFERRED_DATA_TYPE "
                          "APPLICATION_PRIMITIVE_DATA_TYPE APPLICATION_RECORD_DATA_TYPE AUTOSAR_DATA_TYPE "
                          "IMPLEMENTATION_DATA_TYPE",
    "AutosarDataPrototypeRef": "ARGUMENT_DATA_PROTOTYPE PARAMETER_DATA_PROTOTYPE VARIABLE_DATA_PROTOTYPE",
    "PortPrototypeRef": "ABSTRACT_PROVIDED_PORT_PROTOTYPE ABSTRACT_REQUIRED_PORT_PROTOTYPE P_PORT_PROTOTYPE "
                        "PR_PORT_PROTOTYPE R_PORT_PROTOTYPE",
    "AbstractImplementationDataTypeElementRef": "ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT "
                                                "IMPLEMENTATION_DATA_TYPE_ELEMENT",
    "DataPrototypeRef": "APPLICATION_ARRAY_ELEMENT APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE "
                        "APPLICATION_RECORD_ELEMENT ARGUMENT_DATA_PROTOTYPE AUTOSAR_DATA_PROTOTYPE DATA_PROTOTYPE "
                        "PARAMETER_DATA_PROTOTYPE VARIABLE_DATA_PROTOTYPE",
    "PortInterfaceRef": "CLIENT_SERVER_INTERFACE MODE_SWITCH_INTERFACE NV_DATA_INTERFACE PARAMETER_INTERFACE "
                        "SENDER_RECEIVER_INTERFACE",
    "SwComponentTypeRef": "APPLICATION_SW_COMPONENT_TYPE COMPOSITION_SW_COMPONENT_TYPE",
    "AbstractRequiredPortPrototypeRef": "ABSTRACT_REQUIRED_PORT_PROTOTYPE PR_PORT_PROTOTYPE R_PORT_PROTOTYPE",
    "AbstractProvidedPortPrototypeRef": "ABSTRACT_PROVIDED_PORT_PROTOTYPE P_PORT_PROTOTYPE PR_PORT_PROTOTYPE",
    "RteEventRef": "ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT BACKGROUND_EVENT DATA_RECEIVE_ERROR_EVENT "
                   "DATA_RECEIVED_EVENT DATA_SEND_COMPLETED_EVENT DATA_WRITE_COMPLETED_EVENT "
                   "EXTERNAL_TRIGGER_OCCURRED_EVENT INIT_EVENT INTERNAL_TRIGGER_OCCURRED_EVENT "
                   "MODE_SWITCHED_ACK_EVENT OPERATION_INVOKED_EVENT SWC_MODE_MANAGER_ERROR_EVENT "
                   "SWC_MODE_SWITCH_EVENT TIMING_EVENT TRANSFORMER_HARD_ERROR_EVENT",
    # single destination
    "SwBaseTypeRef": "SW_BASE_TYPE", "PackageRef": "AR_PACKAGE", "CompuMethodRef": "COMPU_METHOD",
    "FunctionPtrSignatureRef": "BSW_MODULE_ENTRY", "ImplementationDataTypeRef": "IMPLEMENTATION_DATA_TYPE",
    "SwAddrMethodRef": "SW_ADDR_METHOD", "DataConstraintRef": "DATA_CONSTR",
    "PhysicalDimensionRef": "PHYSICAL_DIMENSION", "UnitRef": "UNIT",
    "IndexDataTypeRef": "APPLICATION_PRIMITIVE_DATA_TYPE", "ConstantRef": "CONSTANT_SPECIFICATION",
    "VariableDataPrototypeRef": "VARIABLE_DATA_PROTOTYPE", "ParameterDataPrototypeRef": "PARAMETER_DATA_PROTOTYPE",
    "ApplicationErrorRef": "APPLICATION_ERROR", "ModeDeclarationRef": "MODE_DECLARATION",
    "ModeDeclarationGroupRef": "MODE_DECLARATION_GROUP",
    "ModeDeclarationGroupPrototypeRef": "MODE_DECLARATION_GROUP_PROTOTYPE",
    "E2EProfileCompatibilityPropsRef": "E2E_PROFILE_COMPATIBILITY_PROPS",
    "ClientServerOperationRef": "CLIENT_SERVER_OPERATION", "SwComponentPrototypeRef": "SW_COMPONENT_PROTOTYPE",
    "SwcInternalBehaviorRef": "SWC_INTERNAL_BEHAVIOR", "SwcImplementationRef": "SWC_IMPLEMENTATION",
    "ExclusiveAreaRef": "EXCLUSIVE_AREA", "ExclusiveAreaNestingOrderRef": "EXCLUSIVE_AREA_NESTING_ORDER",
    "RunnableEntityRef": "RUNNABLE_ENTITY", "VariableAccessRef": "VARIABLE_ACCESS",
    "ModeSwitchPointRef": "MODE_SWITCH_POINT", "AsynchronousServerCallPointRef": "ASYNCHRONOUS_SERVER_CALL_POINT",
    "AsynchronousServerCallResultPointRef": "ASYNCHRONOUS_SERVER_CALL_RESULT_POINT", "TriggerRef": "TRIGGER",
    "InternalTriggeringPointRef": "INTERNAL_TRIGGERING_POINT", "DataTypeMappingSetRef": "DATA_TYPE_MAPPING_SET",
    "ArgumentDataPrototypeRef": "ARGUMENT_DATA_PROTOTYPE", "ApplicationArrayElementRef": "APPLICATION_ARRAY_ELEMENT",
    "ApplicationRecordElementRef": "APPLICATION_RECORD_ELEMENT",
}
for _k, _v in _I.items():
    s.REF_DESTS[_k] = _v.split()

# ------------------------------------------------------------------ documentation
CLASSES["Break"] = Cls("Break", "BR", [])
CLASSES["EmphasisText"] = TextCls("EmphasisText", "E", s.parse_fields("""
  color @COLOR text
  font @FONT enum:EmphasisFont
  type @TYPE enum:EmphasisType
"""), "elements")
CLASSES["IndexEntry"] = TextCls("IndexEntry", "IE", [])
CLASSES["Subscript"] = TextCls("Subscript", "SUB", [])
CLASSES["Superscript"] = TextCls("Superscript", "SUP", [])
CLASSES["TechnicalTerm"] = TextCls("TechnicalTerm", "TT", s.parse_fields("""
  tex_render @TEX-RENDER text
  type @TYPE text
"""))
_L = "language @L enum:Language !"
CLASSES["LanguageLongName"] = MixedCls(
    "LanguageLongName", "L-4", s.parse_fields(_L),
    ["EmphasisText", "IndexEntry", "Subscript", "Superscript", "TechnicalTerm"])
CLASSES["LanguageOverviewParagraph"] = MixedCls(
    "LanguageOverviewParagraph", "L-2", s.parse_fields(_L),
    ["Break", "EmphasisText", "IndexEntry", "Subscript", "Superscript", "TechnicalTerm"])
CLASSES["LanguageParagraph"] = MixedCls(
    "LanguageParagraph", "L-1", s.parse_fields(_L),
    ["Break", "EmphasisText", "IndexEntry", "Subscript", "Superscript", "TechnicalTerm"])
CLASSES["LanguageVerbatim"] = MixedCls(
    "LanguageVerbatim", "L-5", s.parse_fields(_L), ["Break", "EmphasisText", "TechnicalTerm"])
CLASSES["SingleLanguageUnitNames"] = MixedCls(
    "SingleLanguageUnitNames", "DISPLAY-NAME", [], ["Subscript", "Superscript"])

BASES: dict[str, list[Field]] = {}

s.define("""
MultilanguageLongName LONG-NAME
  elements - flat:LanguageLongName arg=+ !
MultiLanguageOverviewParagraph DESC
  elements - flat:LanguageOverviewParagraph arg=+ !
MultiLanguageParagraph P
  semantic_information @SI text
  view @VIEW text
  page_break @BREAK enum:PageBreak
  keep_with_previous @KEEP-WITH-PREVIOUS enum:KeepWithPrevious
  help_entry @HELP-ENTRY text
  elements - flat:LanguageParagraph arg=+
MultiLanguageVerbatim VERBATIM
  semantic_information @SI text
  view @VIEW text
  page_break @BREAK enum:PageBreak
  keep_with_previous @KEEP-WITH-PREVIOUS enum:KeepWithPrevious
  allow_break @ALLOW-BREAK text
  float @FLOAT enum:Float
  help_entry @HELP-ENTRY text
  page_wide @PGWIDE enum:PageWide
  elements - flat:LanguageVerbatim arg=+
DocumentationBlock INTRODUCTION
  elements - flat:MultiLanguageParagraph|MultiLanguageVerbatim arg=+
Annotation ANNOTATION
  label LABEL obj:MultilanguageLongName
  origin ANNOTATION-ORIGIN text
  text ANNOTATION-TEXT obj:DocumentationBlock
""", BASES)

# ------------------------------------------------------------------ abstract bases
s.define("""
Referrable abstract
  name SHORT-NAME name !
Identifiable abstract : Referrable
  uuid @UUID words
  long_name LONG-NAME obj:MultilanguageLongName
  desc DESC obj:MultiLanguageOverviewParagraph
  category CATEGORY words
  introduction INTRODUCTION obj:DocumentationBlock
  annotations ANNOTATIONS list:Annotation
Describable abstract
  desc DESC obj:MultiLanguageOverviewParagraph
  category CATEGORY words
  introduction INTRODUCTION obj:DocumentationBlock
""", BASES)


# ------------------------------------------------------------------ special kinds
class LimitPair(s.Kind):
    """lower/upper limit with interval type: value {"v": number, "t": member}"""
    leaf = True

    def __init__(self, which):
        self.which = which


def _limit(which):
    tag = f"{which.upper()}-LIMIT"

    def emit(parent, _tag, v):
        parent.add(Node(tag, {"INTERVAL-TYPE": v["t"]}, [num_text(v["v"])], num=True))
    return PyKind(("limit", which), emit)


CUSTOM["lower"] = _limit("lower")
CUSTOM["upper"] = _limit("upper")


class LimitCls(Cls):
    """Class having lower_limit/upper_limit + *_limit_type"""
    def build(self, v):
        cls = self.py()
        kwargs = {}
        for f in self.fields:
            if f.attr not in v:
                continue
            if f.attr in ("lower_limit", "upper_limit"):
                kwargs[f.attr] = v[f.attr]["v"]
                kwargs[f.attr + "_type"] = s.ar_enum.IntervalType[v[f.attr]["t"]]
            else:
                kwargs[f.arg or f.attr] = f.kind.build(v[f.attr])
        return cls(**kwargs)

    def check(self, obj, v):
        if type(obj).__name__ != self.name:
            return f": object of type {type(obj).__name__}, expected {self.name}"
        for f in self.fields:
            actual = getattr(obj, f.attr)
            if f.attr not in v or v[f.attr] == []:
                if not f.empty(actual):
                    return f".{f.attr}: {actual!r}, expected unset"
            elif f.attr in ("lower_limit", "upper_limit"):
                exp = v[f.attr]
                if not num_eq(actual, exp["v"]):
                    return f".{f.attr}: {actual!r}, expected {exp['v']!r}"
                typ = getattr(obj, f.attr + "_type")
                if typ is not s.ar_enum.IntervalType[exp["t"]]:
                    return f".{f.attr}_type: {typ!r}, expected {exp['t']}"
            else:
                d = f.kind.cmp(actual, v[f.attr])
                if d:
                    return f".{f.attr}{'' if d[0] in '.[:' else ': '}{d}"
        return None


class ConstCls(Cls):
    """CompuConst: V or VT"""
    def build(self, v):
        return self.py()(v["value"])

    def emit(self, parent, v, tag=None):
        n = Node(tag or self.tag)
        val = v["value"]
        n.add(Node("VT", {}, [val] if val else []) if isinstance(val, str) else Node("V", {}, [num_text(val)], num=True))
        parent.add(n)
        return n

    def check(self, obj, v):
        if type(obj).__name__ != self.name:
            return f": object of type {type(obj).__name__}, expected {self.name}"
        val = v["value"]
        ok = obj.value == val if isinstance(val, str) else num_eq(obj.value, val)
        return None if ok else f".value: {obj.value!r}, expected {val!r}"


CLASSES["CompuConst"] = ConstCls("CompuConst", "COMPU-CONST", [Field("value", "-", PyKind(("const",), None), req=True)])

CUSTOM["limit"] = PyKind(("limit", ""), None)


def _vlist(tag):
    def emit(parent, _tag, v):
        n = parent.add(Node(tag))
        for x in v:
            n.add(Node("V", {}, [num_text(x)], num=True))

    def build(v):
        return tuple(v)

    def cmp(actual, v):
        if not isinstance(actual, (tuple, list)) or len(actual) != len(v) or \
                not all(num_eq(a, b) for a, b in zip(actual, v)):
            return f"{actual!r}, expected {v!r}"
        return None
    return PyKind(("numlist",), emit, build, cmp)


CUSTOM["numerator"] = _vlist("COMPU-NUMERATOR")
CUSTOM["denominator"] = _vlist("COMPU-DENOMINATOR")


def _intorstr(tag, gen):
    """int or pattern; text representation"""
    def emit(parent, _tag, v):
        parent.add(Node(tag, {}, [str(v)]))

    def norm(x):
        n = s.parse_number(x) if isinstance(x, str) else x
        return x if n is None else n

    def cmp(actual, v):
        same = isinstance(actual, (int, str)) and norm(actual) == norm(v)
        return None if same else f"{actual!r}, expected {v!r}"
    return PyKind(gen, emit, None, cmp)


CUSTOM["alignment"] = _intorstr("SW-ALIGNMENT", ("alignment",))
CUSTOM["display_format"] = _intorstr("DISPLAY-FORMAT", ("display_format",))
CUSTOM["axis_index"] = _intorstr("SW-AXIS-INDEX", ("axis_index",))

s.define("""
CompuRational COMPU-RATIONAL-COEFFS
  numerator COMPU-NUMERATOR custom:numerator
  denominator COMPU-DENOMINATOR custom:denominator
Computation -
  compu_scales COMPU-SCALES list:CompuScale
  default_value COMPU-DEFAULT-VALUE obj:CompuConst
CompuMethod COMPU-METHOD : Identifiable collectable
  display_format DISPLAY-FORMAT custom:display_format
  unit_ref UNIT-REF ref:UnitRef
  int_to_phys COMPU-INTERNAL-TO-PHYS obj:Computation
  phys_to_int COMPU-PHYS-TO-INTERNAL obj:Computation
DataConstraintRule DATA-CONSTR-RULE
  level CONSTR-LEVEL int
  physical PHYS-CONSTRS obj:PhysicalConstraint
  internal INTERNAL-CONSTRS obj:InternalConstraint
DataConstraint DATA-CONSTR : Identifiable collectable
  rules DATA-CONSTR-RULES list:DataConstraintRule
Unit UNIT : Identifiable collectable
  display_name DISPLAY-NAME obj:SingleLanguageUnitNames
  factor FACTOR-SI-TO-UNIT float
  offset OFFSET-SI-TO-UNIT float
  physical_dimension_ref PHYSICAL-DIMENSION-REF ref:PhysicalDimensionRef
DataFilter FILTER
  data_filter_type DATA-FILTER-TYPE enum:DataFilterType
  mask MASK int
  max_val MAX int
  min_val MIN int
  offset OFFSET uint
  period PERIOD uint
  x X int
AutosarEngineeringObject AUTOSAR-ENGINEERING-OBJECT
  label SHORT-LABEL words
  category CATEGORY words
Code CODE : Identifiable
  artifact_descriptors ARTIFACT-DESCRIPTORS list:AutosarEngineeringObject
SwAddrMethod SW-ADDR-METHOD : Identifiable collectable
SwBaseType SW-BASE-TYPE : Identifiable collectable
  size BASE-TYPE-SIZE uint
  max_size MAX-BASE-TYPE-SIZE uint
  encoding BASE-TYPE-ENCODING words
  alignment MEM-ALIGNMENT uint
  byte_order BYTE-ORDER enum:ByteOrder
  native_declaration NATIVE-DECLARATION text
SwDataDefPropsConditional SW-DATA-DEF-PROPS-CONDITIONAL
  display_presentation DISPLAY-PRESENTATION enum:DisplayPresentation
  step_size STEP-SIZE float
  annotations ANNOTATIONS list:Annotation
  sw_addr_method_ref SW-ADDR-METHOD-REF ref:SwAddrMethodRef
  alignment SW-ALIGNMENT custom:alignment
  base_type_ref BASE-TYPE-REF ref:SwBaseTypeRef
  bit_representation SW-BIT-REPRESENTATION obj:SwBitRepresentation
  calibration_access SW-CALIBRATION-ACCESS enum:SwCalibrationAccess
  text_props SW-TEXT-PROPS obj:SwTextProps
  compu_method_ref COMPU-METHOD-REF ref:CompuMethodRef
  display_format DISPLAY-FORMAT custom:display_format
  data_constraint_ref DATA-CONSTR-REF ref:DataConstraintRef
  impl_data_type_ref IMPLEMENTATION-DATA-TYPE-REF ref:ImplementationDataTypeRef
  impl_policy SW-IMPL-POLICY enum:SwImplPolicy
  additional_native_type_qualifier ADDITIONAL-NATIVE-TYPE-QUALIFIER text
  intended_resolution SW-INTENDED-RESOLUTION num
  interpolation_method SW-INTERPOLATION-METHOD ident
  is_virtual SW-IS-VIRTUAL bool
  ptr_target_props SW-POINTER-TARGET-PROPS obj:SwPointerTargetProps
  unit_ref UNIT-REF ref:UnitRef
SwBitRepresentation SW-BIT-REPRESENTATION
  position BIT-POSITION int
  num_bits NUMBER-OF-BITS int
SwTextProps SW-TEXT-PROPS
  array_size_semantics ARRAY-SIZE-SEMANTICS enum:ArraySizeSemantics
  max_text_size SW-MAX-TEXT-SIZE int
  base_type_ref BASE-TYPE-REF ref:SwBaseTypeRef
  fill_char SW-FILL-CHARACTER int
SwPointerTargetProps SW-POINTER-TARGET-PROPS
  target_category TARGET-CATEGORY words
  sw_data_def_props SW-DATA-DEF-PROPS obj:SwDataDefProps
  function_ptr_signature_ref FUNCTION-POINTER-SIGNATURE-REF ref:FunctionPtrSignatureRef
SwDataDefProps SW-DATA-DEF-PROPS
  variants SW-DATA-DEF-PROPS-VARIANTS list:SwDataDefPropsConditional
SymbolProps SYMBOL-PROPS : Referrable
  symbol SYMBOL words
AutosarDataType abstract : Identifiable
  sw_data_def_props SW-DATA-DEF-PROPS obj:SwDataDefProps
ImplementationDataTypeElement IMPLEMENTATION-DATA-TYPE-ELEMENT : Identifiable
  array_impl_policy ARRAY-IMPL-POLICY enum:ArrayImplPolicy
  array_size ARRAY-SIZE uint
  array_size_handling ARRAY-SIZE-HANDLING enum:ArraySizeHandling
  array_size_semantics ARRAY-SIZE-SEMANTICS enum:ArraySizeSemantics
  is_optional IS-OPTIONAL bool
  sub_elements SUB-ELEMENTS list:ImplementationDataTypeElement
  sw_data_def_props SW-DATA-DEF-PROPS obj:SwDataDefProps
ImplementationDataType IMPLEMENTATION-DATA-TYPE : AutosarDataType collectable
  dynamic_array_size_profile DYNAMIC-ARRAY-SIZE-PROFILE words
  is_struct_with_optional_element IS-STRUCT-WITH-OPTIONAL-ELEMENT bool
  sub_elements SUB-ELEMENTS list:ImplementationDataTypeElement
  symbol_props SYMBOL-PROPS obj:SymbolProps
  type_emitter TYPE-EMITTER words
DataPrototype abstract : Identifiable
  sw_data_def_props SW-DATA-DEF-PROPS obj:SwDataDefProps
AutosarDataPrototype abstract : DataPrototype
  type_ref TYPE-TREF ref:AutosarDataTypeRef
VariableDataPrototype VARIABLE-DATA-PROTOTYPE : AutosarDataPrototype
  init_value INIT-VALUE wrap:$VALUE
ParameterDataPrototype PARAMETER-DATA-PROTOTYPE : AutosarDataPrototype
  init_value INIT-VALUE wrap:$VALUE
ArgumentDataPrototype ARGUMENT-DATA-PROTOTYPE : AutosarDataPrototype
  direction DIRECTION enum:ArgumentDirection
  server_arg_impl_policy SERVER-ARGUMENT-IMPL-POLICY enum:ServerArgImplPolicy
ApplicationPrimitiveDataType APPLICATION-PRIMITIVE-DATA-TYPE : AutosarDataType collectable
ApplicationCompositeElementDataPrototype abstract : DataPrototype
  type_ref TYPE-TREF ref:ApplicationDataTypeRef
ApplicationArrayElement ELEMENT : ApplicationCompositeElementDataPrototype
  array_size_handling ARRAY-SIZE-HANDLING enum:ArraySizeHandling
  array_size_semantics ARRAY-SIZE-SEMANTICS enum:ArraySizeSemantics
  index_data_type_ref INDEX-DATA-TYPE-REF ref:IndexDataTypeRef
  max_number_of_elements MAX-NUMBER-OF-ELEMENTS uint
ApplicationArrayDataType APPLICATION-ARRAY-DATA-TYPE : AutosarDataType collectable
  dynamic_array_size_profile DYNAMIC-ARRAY-SIZE-PROFILE words
  element ELEMENT obj:ApplicationArrayElement
ApplicationRecordElement APPLICATION-RECORD-ELEMENT : ApplicationCompositeElementDataPrototype
  is_optional IS-OPTIONAL bool
ApplicationRecordDataType APPLICATION-RECORD-DATA-TYPE : AutosarDataType collectable
  elements ELEMENTS list:ApplicationRecordElement
DataTypeMap DATA-TYPE-MAP
  appl_data_type_ref APPLICATION-DATA-TYPE-REF ref:ApplicationDataTypeRef
  impl_data_type_ref IMPLEMENTATION-DATA-TYPE-REF ref:ImplementationDataTypeRef
DataTypeMappingSet DATA-TYPE-MAPPING-SET : Identifiable collectable
  data_type_maps DATA-TYPE-MAPS list:DataTypeMap
ModeRequestTypeMap MODE-REQUEST-TYPE-MAP
  implementation_data_type IMPLEMENTATION-DATA-TYPE-REF ref:ImplementationDataTypeRef
  mode_group MODE-GROUP-REF ref:ModeDeclarationGroupRef
# ---------------------------------------------- values
ValueSpecification abstract
  label SHORT-LABEL ident
TextValueSpecification TEXT-VALUE-SPECIFICATION : ValueSpecification
  value VALUE text
NumericalValueSpecification NUMERICAL-VALUE-SPECIFICATION : ValueSpecification
  value VALUE num
NotAvailableValueSpecification NOT-AVAILABLE-VALUE-SPECIFICATION : ValueSpecification
  default_pattern DEFAULT-PATTERN uint
ArrayValueSpecification ARRAY-VALUE-SPECIFICATION : ValueSpecification
  elements ELEMENTS list:$VALUE
RecordValueSpecification RECORD-VALUE-SPECIFICATION : ValueSpecification
  fields FIELDS list:$VALUE
ApplicationValueSpecification APPLICATION-VALUE-SPECIFICATION : ValueSpecification
  category CATEGORY words
  sw_axis_conts SW-AXIS-CONTS list:SwAxisCont
  sw_value_cont SW-VALUE-CONT obj:SwValueCont
ConstantReference CONSTANT-REFERENCE : ValueSpecification
  constant_ref CONSTANT-REF ref:ConstantRef
ConstantSpecification CONSTANT-SPECIFICATION : Identifiable collectable
  value VALUE-SPEC wrap:$VALUE
SwAxisCont SW-AXIS-CONT
  category CATEGORY enum:CalibrationAxisCategory
  unit_ref UNIT-REF ref:UnitRef
  unit_display_name UNIT-DISPLAY-NAME obj:SingleLanguageUnitNames
  sw_axis_index SW-AXIS-INDEX custom:axis_index
  sw_array_size SW-ARRAYSIZE obj:ValueList
  sw_values_phys SW-VALUES-PHYS obj:SwValues
SwValueCont SW-VALUE-CONT
  unit_ref UNIT-REF ref:UnitRef
  unit_display_name UNIT-DISPLAY-NAME obj:SingleLanguageUnitNames
  sw_array_size SW-ARRAYSIZE obj:ValueList
  sw_values_phys SW-VALUES-PHYS obj:SwValues
ModeDeclaration MODE-DECLARATION : Identifiable
  value VALUE uint
ModeErrorBehavior MODE-ERROR-BEHAVIOR
  default_mode_ref DEFAULT-MODE-REF ref:ModeDeclarationRef
  error_reaction_policy ERROR-REACTION-POLICY enum:ModeErrorReactionPolicy
ModeTransition MODE-TRANSITION : Identifiable
  entered_mode_ref ENTERED-MODE-REF ref:ModeDeclarationRef
  exited_mode_ref EXITED-MODE-REF ref:ModeDeclarationRef
ModeDeclarationGroup MODE-DECLARATION-GROUP : Identifiable collectable
  initial_mode_ref INITIAL-MODE-REF ref:ModeDeclarationRef
  mode_declarations MODE-DECLARATIONS list:ModeDeclaration
  mode_manager_error_behavior MODE-MANAGER-ERROR-BEHAVIOR obj:ModeErrorBehavior
  mode_transitions MODE-TRANSITIONS list:ModeTransition
  mode_user_error_behavior MODE-USER-ERROR-BEHAVIOR obj:ModeErrorBehavior
  on_transition_value ON-TRANSITION-VALUE uint
ModeDeclarationGroupPrototype MODE-GROUP : Identifiable
  calibration_access SW-CALIBRATION-ACCESS enum:SwCalibrationAccess
  type_ref TYPE-TREF ref:ModeDeclarationGroupRef
# ---------------------------------------------- port interfaces
PortInterface abstract : Identifiable
  is_service IS-SERVICE bool
  service_kind SERVICE-KIND enum:ServiceKind
NvDataInterface NV-DATA-INTERFACE : PortInterface collectable
  data_elements NV-DATAS list:VariableDataPrototype
ParameterInterface PARAMETER-INTERFACE : PortInterface collectable
  parameters PARAMETERS list:ParameterDataPrototype
SenderReceiverInterface SENDER-RECEIVER-INTERFACE : PortInterface collectable
  data_elements DATA-ELEMENTS list:VariableDataPrototype
  invalidation_policies INVALIDATION-POLICYS list:InvalidationPolicy
InvalidationPolicy INVALIDATION-POLICY
  data_element_ref DATA-ELEMENT-REF ref:VariableDataPrototypeRef
  handle_invalid HANDLE-INVALID enum:HandleInvalid
ApplicationError APPLICATION-ERROR : Identifiable
  error_code ERROR-CODE int
ClientServerOperation CLIENT-SERVER-OPERATION : Identifiable
  arguments ARGUMENTS list:ArgumentDataPrototype
  diag_arg_integrity DIAG-ARG-INTEGRITY bool
  fire_and_forget FIRE-AND-FORGET bool
  possible_error_refs POSSIBLE-ERROR-REFS list:ref/ApplicationErrorRef=POSSIBLE-ERROR-REF
""".replace("$VALUE", "TextValueSpecification|NumericalValueSpecification|NotAvailableValueSpecification|"
            "ArrayValueSpecification|RecordValueSpecification|ApplicationValueSpecification|ConstantReference"), BASES)

_CB = """
  lower_limit LOWER-LIMIT custom:lower
  upper_limit UPPER-LIMIT custom:upper
  scale_constrs SCALE-CONSTRS list:ScaleConstraint arg=scale_constr
  max_gradient MAX-GRADIENT num
  max_diff MAX-DIFF num
  monotony MONOTONY enum:Monotony
"""
for _n, _t, _f in (
    ("CompuScale", "COMPU-SCALE", """
  label SHORT-LABEL ident
  symbol SYMBOL ident
  desc DESC obj:MultiLanguageOverviewParagraph
  mask MASK int
  lower_limit LOWER-LIMIT custom:lower
  upper_limit UPPER-LIMIT custom:upper
  inverse_value COMPU-INVERSE-VALUE obj:CompuConst
  content - own:CompuConst|CompuRational
"""),
    ("ScaleConstraint", "SCALE-CONSTR", """
  validity @VALIDITY enum:ScaleConstraintValidity
  label SHORT-LABEL ident
  desc DESC obj:MultiLanguageOverviewParagraph
  lower_limit LOWER-LIMIT custom:lower
  upper_limit UPPER-LIMIT custom:upper
"""),
    ("InternalConstraint", "INTERNAL-CONSTRS", _CB),
    ("PhysicalConstraint", "PHYS-CONSTRS", _CB + "  unit_ref UNIT-REF ref:UnitRef\n"),
):
    CLASSES[_n] = LimitCls(_n, _t, s.parse_fields(_f))


# SwValues / ValueGroup / ValueList
def _values_emit(n, values):
    for x in values:
        if isinstance(x, str):
            n.add(Node("VT", {}, [x]))
        elif isinstance(x, dict):
            CLASSES[x["$"]].emit(n, x)
        else:
            n.add(Node("V", {}, [num_text(x)], num=True))


def _values_cmp(actual, v):
    if len(actual) != len(v):
        return f"{len(actual)} values, expected {len(v)}"
    for i, (a, x) in enumerate(zip(actual, v)):
        if type(a).__name__ == "NumericalValue":
            a = a.value
        if isinstance(x, dict):
            d = CLASSES[x["$"]].check(a, x)
            if d:
                return f"[{i}]{d}"
        elif isinstance(x, str):
            if a != x or not isinstance(a, str):
                return f"[{i}]: {a!r}, expected {x!r}"
        elif not num_eq(a, x):
            return f"[{i}]: {a!r}, expected {x!r}"
    return None


def _values_build(v):
    return [CLASSES[x["$"]].build(x) if isinstance(x, dict) else x for x in v]


CUSTOM["swvalues"] = PyKind(("swvalues",), lambda p, t, v: _values_emit(p, v), _values_build, _values_cmp,
                            classes=("ValueGroup",), default=())
CUSTOM["valuelist"] = PyKind(("numlist",), lambda p, t, v: _values_emit(p, v), _values_build, _values_cmp, default=())

s.define("""
SwValues SW-VALUES-PHYS
  values - custom:swvalues !
ValueGroup VG
  label LABEL obj:MultilanguageLongName
  values - custom:swvalues !
ValueList SW-ARRAYSIZE
  values - custom:valuelist !
""", BASES)

# ------------------------------------------------------------------ software components
_VAL = ("TextValueSpecification|NumericalValueSpecification|NotAvailableValueSpecification|"
        "ArrayValueSpecification|RecordValueSpecification|ApplicationValueSpecification|ConstantReference")
_PCS = ("ModeSwitchSenderComSpec|QueuedSenderComSpec|NonqueuedSenderComSpec|NvProvideComSpec|"
        "ParameterProvideComSpec|ServerComSpec")
_RCS = ("QueuedReceiverComSpec|NonqueuedReceiverComSpec|NvRequireComSpec|ParameterRequireComSpec|"
        "ModeSwitchReceiverComSpec|ClientComSpec")
_EVT = ("AsynchronousServerCallReturnsEvent|BackgroundEvent|DataReceiveErrorEvent|DataReceivedEvent|"
        "DataSendCompletedEvent|DataWriteCompletedEvent|ExternalTriggerOccurredEvent|InitEvent|"
        "InternalTriggerOccurredEvent|ModeSwitchedAckEvent|OperationInvokedEvent|SwcModeManagerErrorEvent|"
        "SwcModeSwitchEvent|TimingEvent|TransformerHardErrorEvent")

_P = ["ABSTRACT_PROVIDED_PORT_PROTOTYPE", "P_PORT_PROTOTYPE"]
_R = ["ABSTRACT_REQUIRED_PORT_PROTOTYPE", "R_PORT_PROTOTYPE"]
s.REF_DESTS["PortPrototypeRef.P"] = _P + ["PR_PORT_PROTOTYPE"]
s.REF_DESTS["PortPrototypeRef.R"] = _R + ["PR_PORT_PROTOTYPE"]
s.REF_DESTS["PortPrototypeRef.onlyR"] = _R


class ExclusiveAreaRefs(ListOf):
    """Exclusive area references, represented differently in schema versions before 50"""
    def __init__(self, old_tag, new_tag):
        super().__init__(s.Obj(["ExclusiveAreaRefConditional"], "own"))
        self.old_tag, self.new_tag = old_tag, new_tag

    def emit(self, parent, tag, v):
        if not v:
            return
        if s.schema_version[0] >= 50:
            super().emit(parent, self.new_tag, v)
            return
        n = parent.add(Node(self.old_tag + "-REFS"))
        for x in v:
            ref = x["exclusive_area"]
            n.add(Node(self.old_tag + "-REF", {"DEST": s.enum_text("IdentifiableSubTypes", ref[1])}, [ref[0]]))


CUSTOM["can_enter"] = ExclusiveAreaRefs("CAN-ENTER-EXCLUSIVE-AREA", "CAN-ENTERS")
CUSTOM["runs_inside"] = ExclusiveAreaRefs("RUNS-INSIDE-EXCLUSIVE-AREA", "RUNS-INSIDES")


class DictValues(ListOf):
    """List stored as values of a dictionary, keyed by the last part of the port reference"""
    def cmp(self, actual, v):
        return super().cmp(list(actual.values()), v)


class OneOrPair(ListOf):
    """One element or a tuple of two"""
    def build(self, v):
        objs = super().build(v)
        return objs[0] if len(objs) == 1 else tuple(objs)

    def cmp(self, actual, v):
        if len(v) == 1:
            return self.item.cmp(actual, v[0])
        if not isinstance(actual, tuple):
            return f"{actual!r}, expected a tuple"
        return super().cmp(actual, v)


CUSTOM["port_api_options"] = DictValues(s.Obj(["PortApiOption"], "own"))
CUSTOM["mode_irefs"] = OneOrPair(s.Obj(["RModeInAtomicSwcInstanceRef"], "tag"), "MODE-IREF")
CUSTOM["mode_irefs"].one_or_pair = True

s.define("""
ClientServerInterface CLIENT-SERVER-INTERFACE : PortInterface collectable
  operations OPERATIONS list:ClientServerOperation
  possible_errors POSSIBLE-ERRORS list:ApplicationError
ModeSwitchInterface MODE-SWITCH-INTERFACE : PortInterface collectable
  mode_group MODE-GROUP obj:ModeDeclarationGroupPrototype
E2EProfileCompatibilityProps E-2-E-PROFILE-COMPATIBILITY-PROPS : Identifiable collectable
  transit_to_invalid_extended TRANSIT-TO-INVALID-EXTENDED bool
EndToEndTransformationComSpecProps END-TO-END-TRANSFORMATION-COM-SPEC-PROPS : Describable
  clear_from_valid_to_invalid CLEAR-FROM-VALID-TO-INVALID bool
  disable_e2e_check DISABLE-END-TO-END-CHECK bool
  disable_e2e_state_machine DISABLE-END-TO-END-STATE-MACHINE bool
  e2e_profile_compatibility_props_ref E-2-E-PROFILE-COMPATIBILITY-PROPS-REF ref:E2EProfileCompatibilityPropsRef
  max_delta_counter MAX-DELTA-COUNTER uint
  max_error_state_init MAX-ERROR-STATE-INIT uint
  max_error_state_invalid MAX-ERROR-STATE-INVALID uint
  max_error_state_valid MAX-ERROR-STATE-VALID uint
  max_no_new_repeated_data MAX-NO-NEW-OR-REPEATED-DATA uint
  min_ok_state_init MIN-OK-STATE-INIT uint
  min_ok_state_invalid MIN-OK-STATE-INVALID uint
  min_ok_state_valid MIN-OK-STATE-VALID uint
  sync_counter_init SYNC-COUNTER-INIT uint
  window_size WINDOW-SIZE uint
  window_size_init WINDOW-SIZE-INIT uint
  window_size_invalid WINDOW-SIZE-INVALID uint
  window_size_valid WINDOW-SIZE-VALID uint
ModeSwitchedAckRequest MODE-SWITCHED-ACK
  timeout TIMEOUT float
TransmissionAcknowledgementRequest TRANSMISSION-ACKNOWLEDGE
  timeout TIMEOUT float
TransmissionComSpecProps TRANSMISSION-PROPS
  data_update_period DATA-UPDATE-PERIOD float
  minimum_send_interval MINIMUM-SEND-INTERVAL float
  transmission_mode TRANSMISSION-MODE enum:TransmissionMode
ModeSwitchSenderComSpec MODE-SWITCH-SENDER-COM-SPEC
  enhanced_mode_api ENHANCED-MODE-API bool
  mode_group_ref MODE-GROUP-REF ref:ModeDeclarationGroupPrototypeRef
  mode_switched_ack MODE-SWITCHED-ACK obj:ModeSwitchedAckRequest
  queue_length QUEUE-LENGTH uint
SenderComSpec abstract
  data_element_ref DATA-ELEMENT-REF ref:AutosarDataPrototypeRef
  handle_out_of_range HANDLE-OUT-OF-RANGE enum:HandleOutOfRange
  network_representation NETWORK-REPRESENTATION obj:SwDataDefProps
  transmission_acknowledge TRANSMISSION-ACKNOWLEDGE obj:TransmissionAcknowledgementRequest
  tranmsission_props TRANSMISSION-PROPS obj:TransmissionComSpecProps
  uses_end_to_end_protection USES-END-TO-END-PROTECTION bool
QueuedSenderComSpec QUEUED-SENDER-COM-SPEC : SenderComSpec
NonqueuedSenderComSpec NONQUEUED-SENDER-COM-SPEC : SenderComSpec
  data_filter DATA-FILTER obj:DataFilter
  init_value INIT-VALUE wrap:$VALUE
NvProvideComSpec NV-PROVIDE-COM-SPEC
  ram_block_init_value RAM-BLOCK-INIT-VALUE wrap:$VALUE
  rom_block_init_value ROM-BLOCK-INIT-VALUE wrap:$VALUE
  variable_ref VARIABLE-REF ref:VariableDataPrototypeRef
ParameterProvideComSpec PARAMETER-PROVIDE-COM-SPEC
  init_value INIT-VALUE wrap:$VALUE
  parameter_ref PARAMETER-REF ref:ParameterDataPrototypeRef
ServerComSpec SERVER-COM-SPEC
  operation_ref OPERATION-REF ref:ClientServerOperationRef
  queue_length QUEUE-LENGTH uint
  transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS list:EndToEndTransformationComSpecProps
ReceptionComSpecProps RECEPTION-PROPS
  data_update_period DATA-UPDATE-PERIOD float
  timeout TIMEOUT float
ReceiverComSpec abstract
  data_element_ref DATA-ELEMENT-REF ref:AutosarDataPrototypeRef
  handle_out_of_range HANDLE-OUT-OF-RANGE enum:HandleOutOfRange
  handle_out_of_range_status HANDLE-OUT-OF-RANGE-STATUS enum:HandleOutOfRangeStatus
  max_delta_counter_init MAX-DELTA-COUNTER-INIT uint
  max_no_new_repeated_data MAX-NO-NEW-OR-REPEATED-DATA uint
  network_representation NETWORK-REPRESENTATION obj:SwDataDefProps
  reception_props RECEPTION-PROPS obj:ReceptionComSpecProps
  replace_with REPLACE-WITH obj:VariableAccess
  sync_counter_init SYNC-COUNTER-INIT uint
  transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS list:EndToEndTransformationComSpecProps
  uses_end_to_end_protection USES-END-TO-END-PROTECTION bool
QueuedReceiverComSpec QUEUED-RECEIVER-COM-SPEC : ReceiverComSpec
  queue_length QUEUE-LENGTH uint
NonqueuedReceiverComSpec NONQUEUED-RECEIVER-COM-SPEC : ReceiverComSpec
  alive_timeout ALIVE-TIMEOUT float
  enable_update ENABLE-UPDATE bool
  data_filter FILTER obj:DataFilter
  handle_data_status HANDLE-DATA-STATUS bool
  handle_never_received HANDLE-NEVER-RECEIVED bool
  handle_timeout_type HANDLE-TIMEOUT-TYPE enum:HandleTimeout
  init_value INIT-VALUE wrap:$VALUE
  timeout_substitution_value TIMEOUT-SUBSTITUTION-VALUE wrap:$VALUE
NvRequireComSpec NV-REQUIRE-COM-SPEC
  init_value INIT-VALUE wrap:$VALUE
  variable_ref VARIABLE-REF ref:VariableDataPrototypeRef
ParameterRequireComSpec PARAMETER-REQUIRE-COM-SPEC
  init_value INIT-VALUE wrap:$VALUE
  parameter_ref PARAMETER-REF ref:ParameterDataPrototypeRef
ModeSwitchReceiverComSpec MODE-SWITCH-RECEIVER-COM-SPEC
  enhanced_mode_api ENHANCED-MODE-API bool
  mode_group_ref MODE-GROUP-REF ref:ModeDeclarationGroupPrototypeRef
  supports_async SUPPORTS-ASYNCHRONOUS-MODE-SWITCH bool
ClientComSpec CLIENT-COM-SPEC
  e2e_call_respone_timeout END-TO-END-CALL-RESPONSE-TIMEOUT float
  operation_ref OPERATION-REF ref:ClientServerOperationRef
  transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS list:EndToEndTransformationComSpecProps
ProvidePortPrototype P-PORT-PROTOTYPE : Identifiable
  com_spec PROVIDED-COM-SPECS list:$PCS
  port_interface_ref PROVIDED-INTERFACE-TREF ref:PortInterfaceRef
RequirePortPrototype R-PORT-PROTOTYPE : Identifiable
  allow_unconnected MAY-BE-UNCONNECTED bool
  com_spec REQUIRED-COM-SPECS list:$RCS
  port_interface_ref REQUIRED-INTERFACE-TREF ref:PortInterfaceRef
PRPortPrototype PR-PORT-PROTOTYPE : Identifiable
  provided_com_spec PROVIDED-COM-SPECS list:$PCS
  required_com_spec REQUIRED-COM-SPECS list:$RCS
  port_interface_ref PROVIDED-REQUIRED-INTERFACE-TREF ref:PortInterfaceRef
SwComponentType abstract : Identifiable
  ports PORTS list:ProvidePortPrototype|RequirePortPrototype|PRPortPrototype
ApplicationSoftwareComponentType APPLICATION-SW-COMPONENT-TYPE : SwComponentType collectable
  internal_behavior INTERNAL-BEHAVIORS wrap:SwcInternalBehavior
  symbol_props SYMBOL-PROPS obj:SymbolProps
SwComponentPrototype SW-COMPONENT-PROTOTYPE : Identifiable
  type_ref TYPE-TREF ref:SwComponentTypeRef
PInComposition=PortInCompositionTypeInstanceRef P-PORT-IN-COMPOSITION-INSTANCE-REF
  component_ref CONTEXT-COMPONENT-REF ref:SwComponentPrototypeRef
  port_ref TARGET-P-PORT-REF ref:PortPrototypeRef.P
RInComposition=PortInCompositionTypeInstanceRef R-PORT-IN-COMPOSITION-INSTANCE-REF
  component_ref CONTEXT-COMPONENT-REF ref:SwComponentPrototypeRef
  port_ref TARGET-R-PORT-REF ref:PortPrototypeRef.R
InnerP=PortInCompositionTypeInstanceRef P-PORT-IN-COMPOSITION-INSTANCE-REF
  component_ref CONTEXT-COMPONENT-REF ref:SwComponentPrototypeRef
  port_ref TARGET-P-PORT-REF ref:PortPrototypeRef.P !
InnerR=PortInCompositionTypeInstanceRef R-PORT-IN-COMPOSITION-INSTANCE-REF
  component_ref CONTEXT-COMPONENT-REF ref:SwComponentPrototypeRef
  port_ref TARGET-R-PORT-REF ref:PortPrototypeRef.onlyR !
AssemblySwConnector ASSEMBLY-SW-CONNECTOR : Identifiable
  provide_port PROVIDER-IREF obj:PInComposition
  require_port REQUESTER-IREF obj:RInComposition
DelegationSwConnector DELEGATION-SW-CONNECTOR : Identifiable
  inner_port INNER-PORT-IREF wrap:InnerP|InnerR
  outer_port OUTER-PORT-REF ref:PortPrototypeRef
PassThroughSwConnector PASS-THROUGH-SW-CONNECTOR : Identifiable
  provide_port PROVIDED-OUTER-PORT-REF ref:PortPrototypeRef
  require_port REQUIRED-OUTER-PORT-REF ref:PortPrototypeRef
CompositionSwComponentType COMPOSITION-SW-COMPONENT-TYPE : SwComponentType collectable
  components COMPONENTS list:SwComponentPrototype
  connectors CONNECTORS list:AssemblySwConnector|DelegationSwConnector|PassThroughSwConnector
SwcImplementation SWC-IMPLEMENTATION : Identifiable collectable
  code_descriptors CODE-DESCRIPTORS list:Code
  behavior_ref BEHAVIOR-REF ref:SwcInternalBehaviorRef
  required_rte_vendor REQUIRED-RTE-VENDOR text
# ---------------------------------------------- instance references
PModeGroupInAtomicSwcInstanceRef P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF
  context_port CONTEXT-P-PORT-REF ref:AbstractProvidedPortPrototypeRef
  target_mode_group TARGET-MODE-GROUP-REF ref:ModeDeclarationGroupPrototypeRef
POperationInAtomicSwcInstanceRef OPERATION-IREF
  context_port CONTEXT-P-PORT-REF ref:AbstractProvidedPortPrototypeRef
  target_provided_operation TARGET-PROVIDED-OPERATION-REF ref:ClientServerOperationRef
PTriggerInAtomicSwcTypeInstanceRef TRIGGER-IREF
  context_port CONTEXT-P-PORT-REF ref:AbstractProvidedPortPrototypeRef
  target_trigger TARGET-TRIGGER-REF ref:TriggerRef
RModeInAtomicSwcInstanceRef MODE-IREF
  context_port CONTEXT-PORT-REF ref:AbstractRequiredPortPrototypeRef
  context_mode_declaration_group_prototype CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF ref:ModeDeclarationGroupPrototypeRef
  target_mode_declaration TARGET-MODE-DECLARATION-REF ref:ModeDeclarationRef
RModeGroupInAtomicSwcInstanceRef R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF
  context_port CONTEXT-R-PORT-REF ref:AbstractRequiredPortPrototypeRef
  target_mode_group TARGET-MODE-GROUP-REF ref:ModeDeclarationGroupPrototypeRef
ROperationInAtomicSwcInstanceRef OPERATION-IREF
  context_port CONTEXT-R-PORT-REF ref:AbstractRequiredPortPrototypeRef
  target_required_operation TARGET-REQUIRED-OPERATION-REF ref:ClientServerOperationRef
RVariableInAtomicSwcInstanceRef DATA-IREF
  context_port CONTEXT-R-PORT-REF ref:AbstractRequiredPortPrototypeRef
  target_data_element TARGET-DATA-ELEMENT-REF ref:VariableDataPrototypeRef
RTriggerInAtomicSwcInstanceRef TRIGGER-IREF
  context_port CONTEXT-R-PORT-REF ref:AbstractRequiredPortPrototypeRef
  target_trigger TARGET-TRIGGER-REF ref:TriggerRef
ArVariableInImplementationDataInstanceRef AUTOSAR-VARIABLE-IN-IMPL-DATATYPE
  port_prototype_ref PORT-PROTOTYPE-REF ref:PortPrototypeRef
  root_variable_data_prototype_ref ROOT-VARIABLE-DATA-PROTOTYPE-REF ref:VariableDataPrototypeRef
  context_data_prototype_refs CONTEXT-DATA-PROTOTYPE-REFS list:ref/AbstractImplementationDataTypeElementRef=CONTEXT-DATA-PROTOTYPE-REF
  target_data_prototype_ref TARGET-DATA-PROTOTYPE-REF ref:AbstractImplementationDataTypeElementRef
VariableInAtomicSWCTypeInstanceRef AUTOSAR-VARIABLE-IREF
  port_prototype_ref PORT-PROTOTYPE-REF ref:PortPrototypeRef
  root_variable_data_prototype_ref ROOT-VARIABLE-DATA-PROTOTYPE-REF ref:VariableDataPrototypeRef
  context_data_prototype_refs - flat:ref/ApplicationCompositeElementDataPrototypeRef=CONTEXT-DATA-PROTOTYPE-REF
  target_data_prototype_ref TARGET-DATA-PROTOTYPE-REF ref:DataPrototypeRef
AutosarVariableRef ACCESSED-VARIABLE
  ar_variable_in_impl_datatype AUTOSAR-VARIABLE-IN-IMPL-DATATYPE obj:ArVariableInImplementationDataInstanceRef
  ar_variable_iref AUTOSAR-VARIABLE-IREF obj:VariableInAtomicSWCTypeInstanceRef
  local_variable_ref LOCAL-VARIABLE-REF ref:VariableDataPrototypeRef
VariableAccess VARIABLE-ACCESS : Identifiable
  accessed_variable ACCESSED-VARIABLE obj:AutosarVariableRef
  scope SCOPE enum:VariableAccessScope
# ---------------------------------------------- internal behavior
RunnableEntityArgument RUNNABLE-ENTITY-ARGUMENT
  symbol SYMBOL words
ExecutableEntityActivationReason EXECUTABLE-ENTITY-ACTIVATION-REASON : Referrable
  symbol SYMBOL words
  bit_position BIT-POSITION uint
ExclusiveAreaRefConditional EXCLUSIVE-AREA-REF-CONDITIONAL
  exclusive_area EXCLUSIVE-AREA-REF ref:ExclusiveAreaRef !
AbstractAccessPoint abstract : Identifiable
  return_value_provision RETURN-VALUE-PROVISION enum:RteApiReturnValueProvision
ServerCallPoint abstract : AbstractAccessPoint
  operation OPERATION-IREF obj:ROperationInAtomicSwcInstanceRef
  timeout TIMEOUT float
AsynchronousServerCallPoint ASYNCHRONOUS-SERVER-CALL-POINT : ServerCallPoint
SynchronousServerCallPoint SYNCHRONOUS-SERVER-CALL-POINT : ServerCallPoint
  called_from_within_exclusive_area CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF ref:ExclusiveAreaNestingOrderRef
AsynchronousServerCallResultPoint ASYNCHRONOUS-SERVER-CALL-RESULT-POINT : AbstractAccessPoint
  async_server_call_point ASYNCHRONOUS-SERVER-CALL-POINT-REF ref:AsynchronousServerCallPointRef
ExternalTriggeringPointIdent IDENT : AbstractAccessPoint
ExternalTriggeringPoint EXTERNAL-TRIGGERING-POINT
  ident IDENT obj:ExternalTriggeringPointIdent
  trigger TRIGGER-IREF obj:PTriggerInAtomicSwcTypeInstanceRef
InternalTriggeringPoint INTERNAL-TRIGGERING-POINT : AbstractAccessPoint
  sw_impl_policy SW-IMPL-POLICY enum:SwImplPolicy
ModeAccessPointIdent IDENT : AbstractAccessPoint
ModeAccessPoint MODE-ACCESS-POINT
  ident IDENT obj:ModeAccessPointIdent
  mode_group MODE-GROUP-IREF wrap:PModeGroupInAtomicSwcInstanceRef|RModeGroupInAtomicSwcInstanceRef
ModeSwitchPoint MODE-SWITCH-POINT : AbstractAccessPoint
  mode_group MODE-GROUP-IREF obj:PModeGroupInAtomicSwcInstanceRef
ParameterInAtomicSwcTypeInstanceRef AUTOSAR-PARAMETER-IREF
  port_prototype PORT-PROTOTYPE-REF ref:PortPrototypeRef
  root_parameter_data_prototype ROOT-PARAMETER-DATA-PROTOTYPE-REF ref:DataPrototypeRef
  context_data_prototype CONTEXT-DATA-PROTOTYPE-REF ref:ApplicationCompositeElementDataPrototypeRef
  target_data_prototype TARGET-DATA-PROTOTYPE-REF ref:DataPrototypeRef
AutosarParameterRef ACCESSED-PARAMETER
  autosar_parameter AUTOSAR-PARAMETER-IREF obj:ParameterInAtomicSwcTypeInstanceRef
  local_parameter LOCAL-PARAMETER-REF ref:DataPrototypeRef
ParameterAccess PARAMETER-ACCESS : AbstractAccessPoint
  accessed_parameter ACCESSED-PARAMETER obj:AutosarParameterRef
  sw_data_def_props SW-DATA-DEF-PROPS obj:SwDataDefProps
WaitPoint WAIT-POINT : Identifiable
  timeout TIMEOUT float
  trigger TRIGGER-REF ref:RteEventRef
RunnableEntity RUNNABLE-ENTITY : Identifiable
  activation_reasons ACTIVATION-REASONS list:ExecutableEntityActivationReason
  can_enter_leave - custom:can_enter
  exclusive_area_nesting_order EXCLUSIVE-AREA-NESTING-ORDER-REFS list:ref/ExclusiveAreaNestingOrderRef=EXCLUSIVE-AREA-NESTING-ORDER-REF
  minimum_start_interval MINIMUM-START-INTERVAL float
  reentrancy_level REENTRANCY-LEVEL enum:ReentrancyLevel
  runs_insides - custom:runs_inside
  sw_addr_method SW-ADDR-METHOD-REF ref:SwAddrMethodRef
  argument ARGUMENTS list:RunnableEntityArgument
  async_server_call_result_point ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS list:AsynchronousServerCallResultPoint
  can_be_invoked_concurrently CAN-BE-INVOKED-CONCURRENTLY bool
  data_read_access DATA-READ-ACCESSS list:VariableAccess
  data_receive_point_by_argument DATA-RECEIVE-POINT-BY-ARGUMENTS list:VariableAccess
  data_receive_point_by_value DATA-RECEIVE-POINT-BY-VALUES list:VariableAccess
  data_send_point DATA-SEND-POINTS list:VariableAccess
  data_write_access DATA-WRITE-ACCESSS list:VariableAccess
  external_triggering_point EXTERNAL-TRIGGERING-POINTS list:ExternalTriggeringPoint
  internal_triggering_point INTERNAL-TRIGGERING-POINTS list:InternalTriggeringPoint
  mode_access_point MODE-ACCESS-POINTS list:ModeAccessPoint
  mode_switch_point MODE-SWITCH-POINTS list:ModeSwitchPoint
  parameter_access PARAMETER-ACCESSS list:ParameterAccess
  read_local_variable READ-LOCAL-VARIABLES list:VariableAccess
  server_call_point SERVER-CALL-POINTS list:AsynchronousServerCallPoint|SynchronousServerCallPoint
  symbol SYMBOL words
  wait_point WAIT-POINTS list:WaitPoint
  write_local_variable WRITTEN-LOCAL-VARIABLES list:VariableAccess
RteEvent abstract : Identifiable
  disabled_modes DISABLED-MODE-IREFS list:RModeInAtomicSwcInstanceRef=DISABLED-MODE-IREF
  start_on_event START-ON-EVENT-REF ref:RunnableEntityRef
AsynchronousServerCallReturnsEvent ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT : RteEvent
  event_source EVENT-SOURCE-REF ref:AsynchronousServerCallResultPointRef
BackgroundEvent BACKGROUND-EVENT : RteEvent
DataReceiveErrorEvent DATA-RECEIVE-ERROR-EVENT : RteEvent
  data DATA-IREF obj:RVariableInAtomicSwcInstanceRef
DataReceivedEvent DATA-RECEIVED-EVENT : RteEvent
  data DATA-IREF obj:RVariableInAtomicSwcInstanceRef
DataSendCompletedEvent DATA-SEND-COMPLETED-EVENT : RteEvent
  event_source EVENT-SOURCE-REF ref:VariableAccessRef
DataWriteCompletedEvent DATA-WRITE-COMPLETED-EVENT : RteEvent
  event_source EVENT-SOURCE-REF ref:VariableAccessRef
ExternalTriggerOccurredEvent EXTERNAL-TRIGGER-OCCURRED-EVENT : RteEvent
  trigger TRIGGER-IREF obj:RTriggerInAtomicSwcInstanceRef
InitEvent INIT-EVENT : RteEvent
InternalTriggerOccurredEvent INTERNAL-TRIGGER-OCCURRED-EVENT : RteEvent
  event_source EVENT-SOURCE-REF ref:InternalTriggeringPointRef
ModeSwitchedAckEvent MODE-SWITCHED-ACK-EVENT : RteEvent
  event_source EVENT-SOURCE-REF ref:ModeSwitchPointRef
OperationInvokedEvent OPERATION-INVOKED-EVENT : RteEvent
  operation OPERATION-IREF obj:POperationInAtomicSwcInstanceRef
SwcModeManagerErrorEvent SWC-MODE-MANAGER-ERROR-EVENT : RteEvent
  mode_group MODE-GROUP-IREF obj:PModeGroupInAtomicSwcInstanceRef
SwcModeSwitchEvent SWC-MODE-SWITCH-EVENT : RteEvent
  activation ACTIVATION enum:ModeActivationKind
  mode MODE-IREFS custom:mode_irefs
TimingEvent TIMING-EVENT : RteEvent
  offset OFFSET float
  period PERIOD float
TransformerHardErrorEvent TRANSFORMER-HARD-ERROR-EVENT : RteEvent
  operation OPERATION-IREF obj:POperationInAtomicSwcInstanceRef
  required_trigger REQUIRED-TRIGGER-IREF obj:RTriggerInAtomicSwcInstanceRef
  trigger TRIGGER-IREF obj:PTriggerInAtomicSwcTypeInstanceRef
PortDefinedArgumentValue PORT-DEFINED-ARGUMENT-VALUE
  value VALUE wrap:$VALUE
  value_type VALUE-TYPE-TREF ref:ImplementationDataTypeRef
CommunicationBufferLocking COMMUNICATION-BUFFER-LOCKING
  support_buffer_locking SUPPORT-BUFFER-LOCKING enum:SupportBufferLocking
PortApiOption PORT-API-OPTION
  enable_take_address ENABLE-TAKE-ADDRESS bool
  error_handling ERROR-HANDLING enum:DataTransformationErrorHandling
  indirect_api INDIRECT-API bool
  port_arg_values PORT-ARG-VALUES list:PortDefinedArgumentValue
  port PORT-REF ref:PortPrototypeRef !
  supported_features SUPPORTED-FEATURES list:CommunicationBufferLocking
  transformer_status_forwarding TRANSFORMER-STATUS-FORWARDING enum:DataTransformationStatusForwarding
ExclusiveArea EXCLUSIVE-AREA : Identifiable
SwcInternalBehavior SWC-INTERNAL-BEHAVIOR : Identifiable
  data_type_mappings DATA-TYPE-MAPPING-REFS list:ref/DataTypeMappingSetRef=DATA-TYPE-MAPPING-REF
  exclusive_areas EXCLUSIVE-AREAS list:ExclusiveArea
  events EVENTS list:$EVT
  port_api_options PORT-API-OPTIONS custom:port_api_options
  runnables RUNNABLES list:RunnableEntity
""".replace("$VALUE", _VAL).replace("$PCS", _PCS).replace("$RCS", _RCS).replace("$EVT", _EVT), BASES)

COLLECTABLE = sorted(n for n, c in CLASSES.items() if c.collectable)
CLASSES["Package"] = Cls("Package", "AR-PACKAGE", list(BASES["Identifiable"]) + [
    Field("elements", "ELEMENTS", ListOf(s.Obj(COLLECTABLE, "own")), arg="+append"),
    Field("packages", "AR-PACKAGES", ListOf(s.Obj(["Package"], "own")), arg="+append"),
], ident=True)
