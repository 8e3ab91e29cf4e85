"""
The ways in which the attributes of each class can be given, see altbuild.py (found by tools/altforms.py, reviewed)
"""
TABLE = """
LanguageLongName parts +append plain
LanguageOverviewParagraph parts +append plain
LanguageParagraph parts +append plain
LanguageVerbatim parts +append plain
SingleLanguageUnitNames parts +append plain
MultilanguageLongName elements single +append plain
MultiLanguageOverviewParagraph elements single +append plain
MultiLanguageParagraph elements single +append plain
MultiLanguageVerbatim elements single +append plain
DocumentationBlock elements single +append list
Computation compu_scales tuple; default_value plain
CompuMethod desc text pair; annotations single tuple
DataConstraint desc text pair; annotations single tuple; rules tuple
Unit desc text pair; annotations single tuple; physical_dimension_ref str; display_name plain
Code desc text pair; annotations single tuple; artifact_descriptors single tuple +append_artifact_descriptor
SwAddrMethod desc text pair; annotations single tuple
SwBaseType desc text pair; annotations single tuple
SwDataDefPropsConditional annotations single tuple; sw_addr_method_ref str; base_type_ref str; compu_method_ref str; data_constraint_ref str; impl_data_type_ref str other; unit_ref str
SwTextProps base_type_ref str
SwPointerTargetProps function_ptr_signature_ref str; sw_data_def_props plain
SwDataDefProps variants single +append
ImplementationDataTypeElement desc text pair; annotations single tuple; sub_elements tuple +append; sw_data_def_props plain
ImplementationDataType desc text pair; annotations single tuple; sub_elements tuple +append; sw_data_def_props plain
VariableDataPrototype desc text pair; annotations single tuple; type_ref other; sw_data_def_props plain
ParameterDataPrototype desc text pair; annotations single tuple; type_ref other; sw_data_def_props plain
ArgumentDataPrototype desc text pair; annotations single tuple; type_ref other; sw_data_def_props plain
ApplicationPrimitiveDataType desc text pair; annotations single tuple; sw_data_def_props plain
ApplicationArrayElement desc text pair; annotations single tuple; index_data_type_ref str other; sw_data_def_props plain
ApplicationArrayDataType desc text pair; annotations single tuple; sw_data_def_props plain
ApplicationRecordElement desc text pair; annotations single tuple; sw_data_def_props plain
ApplicationRecordDataType desc text pair; annotations single tuple; elements single +append +extend; sw_data_def_props plain
DataTypeMappingSet desc text pair; annotations single tuple; data_type_maps single +append
ArrayValueSpecification elements single +append
RecordValueSpecification fields single +append
ApplicationValueSpecification sw_axis_conts single
ConstantReference constant_ref str
ConstantSpecification desc text pair; annotations single tuple
ModeDeclaration desc text pair; annotations single tuple
ModeErrorBehavior default_mode_ref str
ModeTransition desc text pair; annotations single tuple; entered_mode_ref str; exited_mode_ref str
ModeDeclarationGroup desc text pair; annotations single tuple; initial_mode_ref str; mode_declarations single +append_mode_declaratation +create_mode_declaration plain; mode_transitions single +append_mode_transition
ModeDeclarationGroupPrototype desc text pair; annotations single tuple; type_ref str
NvDataInterface desc text pair; annotations single tuple; data_elements single +append_data_element +create_data_element
ParameterInterface desc text pair; annotations single tuple; parameters single +append_parameter +create_parameter
SenderReceiverInterface desc text pair; annotations single tuple; data_elements single +append_data_element +create_data_element; invalidation_policies single +append_invalidation_policy *create_invalidation_policy
InvalidationPolicy data_element_ref str other
ApplicationError desc text pair; annotations single tuple
ClientServerOperation desc text pair; annotations single tuple; arguments single +append_argument +create_argument *create_direction_argument; possible_error_refs single +append_possible_error_ref *create_possible_error_ref plain
CompuScale inverse_value plain
InternalConstraint scale_constrs tuple
PhysicalConstraint scale_constrs tuple
SwValues values single
ValueGroup values single; label plain
ValueList values single tuple
ClientServerInterface desc text pair; annotations single tuple; operations single +append_operation +create_operation; possible_errors single +append_possible_errors +create_possible_error
ModeSwitchInterface desc text pair; annotations single tuple; mode_group +create_mode_group
E2EProfileCompatibilityProps desc text pair; annotations single tuple
EndToEndTransformationComSpecProps desc pair; e2e_profile_compatibility_props_ref str
ModeSwitchSenderComSpec mode_group_ref str
NvProvideComSpec variable_ref str other
ParameterProvideComSpec parameter_ref str other
ServerComSpec operation_ref str; transformation_com_spec_props single +append_transformation_com_spec_props
QueuedReceiverComSpec transformation_com_spec_props single +append_transformation_com_spec_props
NonqueuedReceiverComSpec transformation_com_spec_props single +append_transformation_com_spec_props
NvRequireComSpec variable_ref str other
ParameterRequireComSpec parameter_ref str other
ModeSwitchReceiverComSpec mode_group_ref str
ClientComSpec operation_ref str; transformation_com_spec_props single +append_transformation_com_spec_props
ProvidePortPrototype desc text pair; annotations single tuple; com_spec single tuple +append_com_spec
RequirePortPrototype desc text pair; annotations single tuple; com_spec single tuple +append_com_spec
PRPortPrototype desc text pair; annotations single tuple; provided_com_spec single tuple +append_com_spec; required_com_spec single tuple +append_com_spec
ApplicationSoftwareComponentType desc text pair; annotations single tuple; ports single +append_port; internal_behavior +create_internal_behavior
SwComponentPrototype desc text pair; annotations single tuple
AssemblySwConnector desc text pair; annotations single tuple
DelegationSwConnector desc text pair; annotations single tuple
PassThroughSwConnector desc text pair; annotations single tuple
CompositionSwComponentType desc text pair; annotations single tuple; ports single +append_port; components single +append_component; connectors single +append_connector
SwcImplementation desc text pair; annotations single tuple; code_descriptors single tuple +append_code_descriptor; behavior_ref str
PModeGroupInAtomicSwcInstanceRef context_port other; target_mode_group str
POperationInAtomicSwcInstanceRef context_port other; target_provided_operation str
PTriggerInAtomicSwcTypeInstanceRef context_port other; target_trigger str
RModeInAtomicSwcInstanceRef context_port other; context_mode_declaration_group_prototype str; target_mode_declaration str
RModeGroupInAtomicSwcInstanceRef context_port other; target_mode_group str
ROperationInAtomicSwcInstanceRef context_port other; target_required_operation str
RVariableInAtomicSwcInstanceRef context_port other; target_data_element str other
RTriggerInAtomicSwcInstanceRef context_port other; target_trigger str
ArVariableInImplementationDataInstanceRef context_data_prototype_refs single +append_context_data_protype_ref
VariableInAtomicSWCTypeInstanceRef port_prototype_ref other; root_variable_data_prototype_ref str other; context_data_prototype_refs single +append_context_data_protype_ref; target_data_prototype_ref other
VariableAccess desc text pair; annotations single tuple
ExclusiveAreaRefConditional exclusive_area str
AsynchronousServerCallPoint desc text pair; annotations single tuple
SynchronousServerCallPoint desc text pair; annotations single tuple; called_from_within_exclusive_area str
AsynchronousServerCallResultPoint desc text pair; annotations single tuple; async_server_call_point str
ExternalTriggeringPointIdent desc text pair; annotations single tuple
InternalTriggeringPoint desc text pair; annotations single tuple
ModeAccessPointIdent desc text pair; annotations single tuple
ModeSwitchPoint desc text pair; annotations single tuple
ParameterInAtomicSwcTypeInstanceRef port_prototype other; root_parameter_data_prototype other; context_data_prototype other; target_data_prototype other
AutosarParameterRef local_parameter other
ParameterAccess desc text pair; annotations single tuple; sw_data_def_props plain
WaitPoint desc text pair; annotations single tuple
RunnableEntity desc text pair; annotations single tuple; activation_reasons single +append_activation_reason; can_enter_leave single +append_can_enter_leave *append_can_enter_leave; exclusive_area_nesting_order single +append_exclusive_area_nesting_order; runs_insides single +append_runs_insides *append_runs_insides; sw_addr_method str; argument single tuple +append_argument; async_server_call_result_point single tuple +append_async_server_call_result_point; data_read_access single tuple +append_data_read_access; data_receive_point_by_argument single tuple +append_data_receive_point_by_argument; data_receive_point_by_value single tuple +append_data_receive_point_by_value; data_send_point single tuple +append_data_send_point; data_write_access single tuple +append_data_write_access; external_triggering_point single tuple +append_external_triggering_point; internal_triggering_point single tuple +append_internal_triggering_point; mode_access_point single tuple +append_mode_access_point; mode_switch_point single tuple +append_mode_switch_point; parameter_access single tuple +append_parameter_access; read_local_variable single tuple +append_read_local_variable; server_call_point single tuple +append_server_call_point; wait_point single tuple +append_wait_point; write_local_variable single tuple +append_write_local_variable
AsynchronousServerCallReturnsEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; event_source str
BackgroundEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str
DataReceiveErrorEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; data make
DataReceivedEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; data make
DataSendCompletedEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; event_source str
DataWriteCompletedEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; event_source str
ExternalTriggerOccurredEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; trigger make
InitEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str
InternalTriggerOccurredEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; event_source str
ModeSwitchedAckEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; event_source str
OperationInvokedEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; operation make
SwcModeManagerErrorEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; mode_group make
SwcModeSwitchEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str; mode make
TimingEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str
TransformerHardErrorEvent desc text pair; annotations single tuple; disabled_modes single +append_disabled_mode; start_on_event str
PortDefinedArgumentValue value_type str other
PortApiOption port_arg_values single +append_port_arg_value; port other; supported_features single +append_supported_feature
ExclusiveArea desc text pair; annotations single tuple
SwcInternalBehavior desc text pair; annotations single tuple; data_type_mappings single tuple +append_data_type_mapping plain; exclusive_areas single tuple +append_exclusive_area +create_exclusive_area; events single tuple +append_event; port_api_options single tuple +append_port_api_option; runnables single tuple +append_runnable *create_runnable
Package desc text pair; annotations single tuple; elements single +append; packages single +append +create_package
"""


def parse():
    """{class: {attribute: [forms]}}"""
    out = {}
    for line in TABLE.split("\n"):
        if line:
            name, _, rest = line.partition(" ")
            out[name] = {x.split()[0]: x.split()[1:] for x in rest.split(";")}
    return out


FORMS = parse()
