"""Names which are used within pyfileconf: attributes of its classes, all attributes and variables, and parameters"""
CLASSES = """
E Exception F ItemView LOAD_FILE_AST LOAD_FILE_EXECUTE LOAD_PIPELINE_FILE_AST None_ PipelineManager RUN Selector X
_ _add_always_imports_and_assigns_to_config _add_full_section_path_str_to_obj
_add_to_config_dependencies_if_necessary _apply_inherited_config_to_loaded_objects _attach_to_pipeline_manager
_children _class_dict_assign_to_dict _combine_imports_get_new_assignments
_convert_list_or_single_item_view_or_str_to_strs _create_pipeline_dict_entry _create_project_if_needed
_create_specific_class_dict_entry _create_str _determine_and_track_if_config_would_be_refreshed
_determine_and_track_if_config_would_be_updated _fill_case_with_defaults _full_repr _get_class_and_config
_get_collection_obj_and_relative_section_path_from_structure _get_config _get_default_config
_get_default_func_or_section_config _get_dir_for_section_path _get_frame _get_full_section_path_str
_get_func_and_config _get_func_or_collection _get_func_or_section_configs _get_manager_structure
_get_new_config_from_file _get_one_func_with_config _get_one_obj_with_config
_get_project_config_or_local_config_by_section_path _get_real_item _get_section
_get_section_path_str_from_section_path_str_or_view _is_begin_str _is_function_or_pipeline_path _is_specific_class
_load_pipeline_config_and_runner _lookup_by_attr _need_to_create_project _output_config_file _output_config_files
_output_section_config _output_section_config_file _pipeline_dict_assign_to_dict _registrar_dict _renamed
_reset_section_config _run _run_case _run_depending_on_settings _run_one_class _run_one_func
_run_one_specific_class _run_section _run_with_auto_pdb _run_with_force_continue _set_attr_for_item _set_child
_set_config_map _set_func_or_config_no_create _set_func_or_config_with_create _set_func_or_section_config
_set_module _set_name _set_name_map _specific_class_collection_map _specific_classes _structure _track_pre_update
_transform_item _transform_items _truncate_length _try_getattr_else_call_func _try_getattr_else_load
_try_getattr_else_register _update _validate_name_is_not_imported_for_another_object _validate_options
_wipe_loaded_modules _x add_config_dependency add_config_dependency_for_currently_running_item_if_exists
add_config_dependency_if_file_is_currently_being_loaded add_frame add_if_missing add_note add_running_item
always_assign_with_names_dict always_assigns always_imports annotations_ append append_if_missing args
as_imports_and_assignments assigns ast body café case change_from_refresh class_dict class_dict_assign cls cls_dict
collection_class config_file_class config_map contains_varname create currently_loading_file_section_path
currently_running_section_path_str d default_config defaults dict endswith equal_attrs execute extend extract_args
extract_config file_is_currently_being_loaded for_function from_ambiguous from_ast_and_imports from_ast_assign
from_ast_import from_ast_import_from from_dict from_dict_of_varnames_and_ast from_file from_file_path from_filepath
from_files from_list from_obj from_section_path_str from_section_str_list from_str from_varname_and_ast_value func
general generic_visit get get_cases get_defaults get_import_for_ast_obj get_import_for_module_or_obj_name
get_manager_by_filepath get_manager_by_section_path_str get_module_filepath get_module_filepaths get_section
get_type imported_modules imported_names imports insert insert_if_missing interface_class item items iv join k key
keys keywords kwargs lambda_ last_case list list_from_ambiguous load logs long_long_long_long_long_long_ m match
module modules name name_for_obj nm obj obj_name_is_imported object objs open os output_name p partial
persist_update pipeline_dict pipeline_dict_assign pipeline_manager pop pop_frame preferred_position print property
py pyc pyfileconf readable_repr refresh refresh_dependent_configs register reload rename_attr repr_cols reset run
run_gen run_product run_product_gen s save scaffold_config scaffold_config_for self set should_run str super sys
test tests to_ast to_default_dict_and_annotation_dict to_file to_filepath to_nested_dict track_post_update type
type_ update update_batch user_defined_dict v value values visit visit_Constant visit_Dict visit_List
with_traceback would_update x x1 x_ x_py zork ä
""".split()
ATTRS = """
ActiveFunctionConfig ActiveFunctionConfigFile AnnAssign Assign AssignmentByVarnameExtractor AssignmentExtractor
AssignmentStatement AssignmentStatementContainer AstDictListConverter Attribute AttributeError BaseException
BatchUpdater BinOp Call Callable CannotResolveConfigDependenciesException Collection Comment ConfigBase
ConfigFileStr ConfigManager ConfigManagerNotLoadedException ConfigSection Constant
CouldNotDetermineModuleForObjectException CouldNotImportException CustomFormatter DEBUG DataFrame Dict E EJECT
Exception ExtractedIncorrectTypeOfImportException F FileMode FileStr Flag FrameType FunctionConfig
FunctionConfigExtractor FunctionDefinitionByNameExtractor FunctionDefinitionExtractor
FunctionDefinitionOrClassInitByNameExtractor Import ImportAssignmentLazyLoader ImportExtractor ImportFrom
ImportStatementContainer ImportTracker Index ItemNotFoundException ItemView IterativeRunner KeyError
KeywordByNameExtractor KeywordExtractor LOAD_FILE_AST LOAD_FILE_EXECUTE LOAD_PIPELINE_FILE_AST List Load Loader
Module ModuleImportStatement ModuleType Name NameConstant NameExtractor NoImportMatchingNameException
NoImportStatementException None_ NotImplementedError ObjOrCollection ObjectImportStatement ObjectView
PipelineCollection PipelineDictConfig PipelineDictFile PipelineManager PipelineManagerNotLoadedException
PipelineRegistrar PluginManager PyfileconfActions PyfileconfFrame PyfileconfOption PyfileconfOptions
PyfileconfStack PythonFileParser RUN RecursionError RenameStatement RenameStatementCollection Runner
RunnerException RunnerSectionView SectionPath Selector Series SpecificClassCollection SpecificClassConfig
SpecificClassConfigFile SpecificClassDictConfig SpecificClassDictFile SpecificRegistrar StackTracker Starred Store
Str Subscript SyntaxError TimedRotatingFileHandler Tuple TypeError ValueError X _ _GeneratorContextManager
_ModuleLevelNameCollector _add_always_imports_and_assigns_to_config _add_full_section_path_str_to_obj
_add_to_config_dependencies_if_necessary _all_specific_classes _applied_updates
_apply_inherited_config_to_loaded_objects _assignment_body _assignment_output_repr
_assignment_output_repr_for_builtins _assigns _ast _ast_dict_or_list_to_dict_or_list _ast_dict_to_dict
_ast_list_to_list _attach_to_pipeline_manager _body _boundary_ _children _class_dict _class_dict_assign
_class_dict_assign_to_dict _combine_imports_get_new_assignments _config _config_map _contains_star_import
_convert_list_or_single_item_view_or_str_to_strs _convert_to_str_if_ast_str_and_desired _create_pipeline_dict_entry
_create_project_if_needed _create_registrars_or_collections_from_dict _create_specific_class_dict_entry _create_str
_default_config _determine_and_track_if_config_would_be_refreshed _determine_and_track_if_config_would_be_updated
_df_dict_from_merge _disp_df_dict_from_merge _execute_import_get_obj_from_result _extract_dict_from_ast_dict
_extract_dict_from_ast_dict_constructor _extract_single_import_from_container
_extract_str_names_from_ambiguous_annotation _extract_str_names_from_quoted_annotation
_extract_str_names_from_subscript _extract_str_names_from_tuple _extract_targets_and_values
_extract_unique_type_str_names_from_annotation_dict _file _file_body_to_assignment_body _fill_case_with_defaults
_find_spec _full_repr _general_registrar _get_child _get_class_and_config
_get_collection_obj_and_relative_section_path_from_structure _get_config _get_config_from_config_or_section
_get_configs_by_section_path_dict _get_default_config _get_default_func_or_section_config _get_dir_for_section_path
_get_file_handlers _get_frame _get_from_nested_obj_by_section_path _get_full_section_path_str _get_func_and_config
_get_func_or_collection _get_func_or_section_configs _get_key_matching_value _get_length_of_arg_section
_get_line_nums_of_import_statements _get_list_of_arg_section _get_manager_structure
_get_module_keys_and_values_lists _get_name_attrs _get_names_defined_in _get_new_config_from_file
_get_one_func_with_config _get_one_obj_with_config _get_project_config_or_local_config_by_section_path
_get_public_name_or_special_name _get_real_item _get_section _get_section_path_str_from_section_path_str_or_view
_get_stored_child _get_update_func _get_user_defined_dict_from_module _get_wrapped_function _has_same_renames_for
_how_merge_df _ignore_scope _import_section_imports _import_tracker _imports _is_always_renamed _is_begin_str
_is_builtin _is_function_or_pipeline_path _is_item_view _is_root_of_module _is_selector _is_specific_class
_is_str_matching_builtin_type _is_whitespace_line _item _items _key_value_pair_to_assignment_str
_load_file_as_module _load_pipeline_config_and_runner _loaded_modules _loaded_objects _lookup_by_attr _manager_name
_managers _member_map_ _missing_ _module _module_key_value_generator _name _name_in_module _need_to_create_project
_obj_in_module _obj_in_module_under_own_name _options _output_config_file _output_config_files _output_name
_output_section_config _output_section_config_file _pipeline_dict _pipeline_dict_assign
_pipeline_dict_assign_to_dict _pyfileconf_update_ _refresh_configs _registrar_dict _registrars _renamed
_reset_section_config _return_with_traceback _run _run_case _run_depending_on_settings _run_one_class _run_one_func
_run_one_specific_class _run_section _run_with_auto_pdb _run_with_force_continue _runner _section_path_str
_section_path_str_to_section_strs _section_path_to_relative_filepath _section_strs_to_section_path_str
_set_attr_for_item _set_child _set_config_map _set_func_or_config_no_create _set_func_or_config_with_create
_set_func_or_section_config _set_in_nested_obj_by_section_path _set_module _set_name _set_name_map
_should_replace_cleanup_kwargs _should_skip_module _specific_class_collection_map _specific_class_registrar_map
_specific_classes _split_lines_into_import_and_assignment _strip_ast_quotes_if_necessary _strip_py
_strip_whitespace_lines_from_end_of_lines _structure _to_list _track_pre_update _transform_item _transform_items
_truncate_length _try_except_run_func_except_user_interrupts _try_getattr_else_call_func _try_getattr_else_load
_try_getattr_else_register _unique_external_names_from_annotation_dict _unique_external_names_from_assignment_dict
_unique_external_names_from_default_dict_and_annotation_dict _update _user_defined_dict _validate_import_type
_validate_name_is_not_imported_for_another_object _validate_options _validate_registrars _value2member_map_ _value_
_values_are_equal _wipe_loaded_modules _x accepted_name_attrs action active_managers add addHandler
add_config_dependency add_config_dependency_for_currently_running_item_if_exists
add_config_dependency_if_file_is_currently_being_loaded add_file_handler add_frame add_hookspecs add_if_missing
add_item_into_nested_dict_at_section_path add_note add_running_item all always_assign_strs
always_assign_with_names_dict always_assigns always_import_strs always_imports annotation annotations annotations_
any append append_if_missing apply_config apply_config_to_obj apply_config_to_partial arg args
as_imports_and_assignments assignment_body assigns ast ast_node_to_source ast_str astor auto_pdb
base_section_path_str basename basepath begin_assignments black body bool builtins café callable callback case
cases cast chain change_from_refresh class_dict class_dict_assign class_function_args_as_dict clear close cls
cls_dict co_filename collection collection_class collections combine_items_into_list_whether_they_are_lists_or_not
comment config config_dependencies config_file_class config_map config_updates contains_varname context
convert_str_values convert_to_empty_obj_if_necessary converter copy copy_location copymode count create
create_dict_assignment_str_from_nested_dict_with_ast_names create_project create_registrars created_from_str ctx
currentframe currently_loading_file_section_path currently_running_section_path_str d data_sources debug
debug_formatter deepcopy default_config default_config_folder_name default_config_path default_hooks
default_msec_format default_time_format default_value defaultdict defaults defs df dict dict_as_function_kwarg_str
difference dir display_df_dict elts end_lineno endswith enumerate equal_attrs equals error exc exec_module execute
execute_attr exists expr extend extract_args extract_assignment_from_ast_by_name extract_assignments_from_ast
extract_assignments_from_ast_by_name extract_collection_from_ast extract_collections_from_ast extract_config
extract_external_name_from_assign_value extract_function_args_and_arg_imports_from_import
extract_function_definition_or_class_init_from_ast_by_name extract_function_definitions_from_ast_by_name
extract_function_definitions_or_class_inits_from_ast_by_name
extract_import_statements_from_function_args_imports_and_assigns extract_imports_from_ast extract_keywords_from_ast
extract_keywords_from_ast_by_name extract_unique_external_names_from_assign_value f_back f_code
file_is_currently_being_loaded file_path file_str filepath find_spec fix_missing_locations flush folder
for_function force_continue force_update_dependencies format formatException formatMessage formatStack formatTime
format_exc format_str frames from_ambiguous from_ast_alias from_ast_and_imports from_ast_assign from_ast_import
from_ast_import_from from_dict from_dict_of_varnames_and_ast from_file from_file_path from_filepath from_files
from_list from_obj from_section_path_str from_section_str_list from_str from_varname_and_ast_value fromkeys func
func_name function_args_as_arg_and_annotation_dict function_args_as_dict general generic_visit get get_caller_frame
get_cases get_config_product get_defaults get_filepath_from_module_str get_import_for_ast_obj
get_import_for_module_or_obj_name get_imported_obj_variable_name get_manager_by_filepath
get_manager_by_section_path_str get_module_and_name_imported_from get_module_filepath
get_module_filepath_from_import get_module_filepaths get_plugin_manager get_section get_summary_of_df get_type
get_user_defined_dict_from_filepath getattr getfullargspec globals handle_known_typo_after_pipeline_manager_name
handle_known_typo_at_end_of_section_path_str handle_pipeline_manager_not_loaded_or_typo handlers has_location
hasattr hash hook hookspecs id import_module import_section_imports import_statement imported_modules
imported_names importlib imports info insert insert_if_missing inspect int interface interface_class is_item_view
isclass isinstance ismethod issubclass item item_map items iter_child_nodes itertools iv join k key key_attr keys
keyword keywords klass kw_defaults kwargs kwonlyargs kwonlydefaults lambda_ last_case left len levelno lineno list
list_from_ambiguous load load_setuptools_entrypoints loader local_config log_file_num_keep log_file_rollover_freq
log_folder log_stdout logger logging logs long_long_long_long_long_long_ lower m makedirs manager match merge
merge_str module module_from_spec modules name name_dict name_for_obj name_map name_type names new_name new_names
nm obj obj_ast obj_name_is_imported object object_view objs open option_attrs option_callbacks options orig_names
orig_str origin original_modules os other_formatter output_accepted_name_attrs output_name p parse partial path
path_str pd pdb pdb_post_mortem_or_passed_debug_fn persist_update pipeline_dict pipeline_dict_assign
pipeline_dict_path pipeline_manager pipeline_manager_name plm pluggy plugin_manager pop pop_frame popitem
post_mortem prefer_beginning preferred_position pretty_format_str print product property py pyc pyfileconf
pyfileconf_iter_get_cases pyfileconf_iter_modify_cases pyfileconf_iter_update_for_case
pyfileconf_post_config_changed pyfileconf_post_run pyfileconf_post_update pyfileconf_post_update_batch
pyfileconf_pre_config_changed pyfileconf_pre_run pyfileconf_pre_update pyfileconf_pre_update_batch quit range
readable_repr readlines realpath refresh refresh_dependent_configs register reload remove remove_file_handler
rename_attr renames replace report_runner_exceptions repr_cols reset reset_option reset_options resolve_name result
reverse reverse_name_map right rpartition run run_gen run_items run_product run_product_gen runner s save
scaffold_config scaffold_config_for scaffolding_error section section_path section_path_str sections selector self
sep set setFormatter setLevel set_option set_options setattr setdefault should_run shutil skip_modules slice sorted
spec_from_file_location specific_class_config_dicts specific_class_names split stack startswith stdout
stdout_also_logged str strip strip_manager_from_iv submodule_search_locations super sys target targets terminal
test tests to_ast to_default_dict_and_annotation_dict to_file to_filepath to_nested_dict to_source trace_back
traceback track_post_update tuple type type_ unregister unwrap update update_batch user_defined_dict usesTime util
v value values varname visit visit_AnnAssign visit_Assign visit_AsyncFunctionDef visit_ClassDef visit_Constant
visit_Dict visit_DictComp visit_FunctionDef visit_GeneratorExp visit_Import visit_ImportFrom visit_Lambda
visit_List visit_ListComp visit_Name visit_SetComp visit_keyword warn warnings with_traceback would_update write
write_text_atomically x x1 x_ x_py zip zork ä
""".split()
PARAMS = """
ActiveFunctionConfig AssignmentStatement AssignmentStatementContainer BatchUpdater ConfigBase E Exception F
FunctionConfig ItemView None_ PipelineManager SectionPath Selector SpecificClassCollection SpecificClassConfig X _
_file _is_selector _x accept_output accept_output_names action active_managers actual_item add_as_ast_name
add_to_begin add_to_sys additional_items additional_results adlc ae all_defaults all_imports all_names
all_registrar_names all_results all_updated_deps all_updates allow_create always_annotations always_assign_strs
always_assigns always_defaults always_import_strs annotation annotation_dict annotation_item annotation_str
annotations annotations_ any arg arg_dict args args_dict assign assign_container assign_statement assign_str
assign_to_name assignment_dict assignment_dicts assignment_lines assignment_section assigns ast_assign ast_dict
ast_function_def ast_key ast_kwargs ast_list ast_name ast_node ast_value attr attr_name attributes attrs auto_pdb
base_section_path_str basepath begin begin_assignments begin_assigns begin_str bt bu builtin_types
by_section_path_dict café callback caller_levels cannot_parse_error case case_with_defaults cases cases_lol
chained_target child class_config class_dict class_name cls cls_dict col collect_results collection
collection_attrs collection_name collection_obj collection_types collections collector combined_dicts comment
comment_str compare_obj conf config config_ config_attr config_class config_dependencies config_dict config_dicts
config_file config_item config_map config_obj config_or_section config_updates configs contents context
convert_desired convert_str_values create current current_config current_dict current_manager_under_this_key
current_module_section_path_str d d_ debug_fn default default_config_folder_name default_dict default_hooks
default_item defaults defaults_dict defaults_path defined_names defining_module_name defs dependent
dependent_section_path depends_on depends_on_section_path_str df df_dict df_disp_dict dict dict_path dict_repr e
enforce_type equal_attr equal_attrs exc exc_tb exc_type exc_val except_func except_func_kwargs except_result
exception exceptions execute_attr existing_assigns existing_body existing_config existing_imports existing_str
exposed exposed_attrs exposed_methods exposed_properties expression external_names
extract_import_statements_from_function_args_imports_and_assigns extract_keywords_from_ast f f_back fe fh
file_is_currently_being_loaded file_lines file_path file_str_obj filename_str filepath final_updates fm folder
force_continue force_update force_update_dependencies found_import frame frame_repr frames full_exc_str full_func
full_section full_section_path_str full_sp full_sp_str fullname func func_arg_imports func_kwargs func_name
func_or_class func_or_collection function_arg_imports function_name future_line_nums general general_collection
general_obj general_registrar get_config_product h hookspecs how i ids ie imp imp_or_comment import_1 import_2
import_assignment_obj import_base import_container import_line_nums import_lines import_or_none import_section
import_section_path_str import_statement import_str imports in_import_section in_module_func in_out_tup index init
init_args inner_ast is_bound_method is_import is_item_view is_loaded is_selector item item1 item1_list item2
item2_list item_class item_config item_filepath item_name item_path_str item_target item_types item_value
item_view_set_attrs items iterative_runner iv k ke key key_attr key_list key_string keywords klass kwarg kwargs
kwargs_dict kwds lambda_ last_container line line_index line_nums lines list loader location_section_path_str
log_file_num_keep log_file_rollover_freq log_folder log_path log_stdout logs logs_path
long_long_long_long_long_long_ lookup_in_registrar_section_path m main_section manager manager_dict manager_name
managers match match_parts match_value matched_modules matching_module matching_modules matching_objs member
memodict merge message mod mod_str module module_and_module_name_or_none module_name module_section_path module_str
module_strs modules modules_str multiple_results n_external n_imports name name_attrs name_var names ne nested
nested_dict new_annotations new_assigns_begin new_assigns_end new_collection new_conf new_config new_confs
new_defaults new_entry new_name new_names new_section new_section_path new_sp new_update new_update_deps
new_updates_dict new_updates_list new_value next_level_import next_module nm no_none_names node
num_no_default_value num_to_match obj obj_ast obj_import obj_kwargs obj_map obj_module obj_name obj_name_parts
obj_or_collection obj_view_or_collection object object_view objs objs_str only_future open opt options opts
opts_str ordered orig_config orig_item orig_item_sp orig_item_sp_str orig_items orig_name orig_value os other
other_always_assigns other_df other_line_nums out out_dict out_imports out_list out_str outer_ast outer_collection
outpath output_file output_lines output_str p package parent parent_name part partial parts path pdb pfc_types
pipeline_class pipeline_dict pipeline_dict_assign pipeline_dict_config pipeline_dict_file pipeline_dict_path
pipeline_dict_str pipeline_folder pipeline_manager_name pipeline_map pipeline_name pipeline_or_collection
pipeline_path plm pm pm_func possibly_imported_name possibly_new_assigns possibly_new_imports preferred_position
prevent_property_access print print_traceback property py pyc pyfileconf pyfileconf_persist re record
register_attrs registrar registrar_name registrar_obj registrars relative_path relative_section_path
relative_section_path_str relevant_config remove_imports rename rename_statement renames repr_col_str repr_col_strs
repr_cols result result_obj results reversed_lines run_arg run_list runner runner_exceptions s sc_dict
scaffold_path_str search_list section section_basepath section_config section_configs section_or_callable
section_or_object_view section_path section_path_begin_index section_path_str section_path_str_or_list
section_path_str_or_view section_path_strs section_paths section_strs sections selector set_section_path_str
skip_methods skip_name skip_sp source_attr source_value sp sp_str sp_strs spec specific_class specific_class_class
specific_class_config specific_class_config_dict specific_class_config_dicts specific_class_dict_config
specific_class_dict_file specific_dict specific_dict_str split_line stack statement store_item store_value str
str_or_list_only str_value string strip_lines strip_list_at_end strip_manager_from_iv structure subscript
subsection_name subsection_path_str successful summary_args summary_attr summary_disp summary_function
summary_method summary_method_kwargs super sys target target_path tb temp_path test tests text this_frame
this_is_item_view timed_handler timed_handlers trace_back try_func try_func_kwargs tuple type_ type_str
type_str_names update update_deps update_func updated updater updates updates_lol use_str used_names
user_defined_dict v val1 val2 valid_items value value_list values variable variable_name varname varnames ve_exc
would_refresh would_update x x1 x_ x_py zork ä
""".split()
