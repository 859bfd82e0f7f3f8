#!/usr/bin/env python3
"""Writes src/gen.rs: the message types of the Language Server Protocol 3.18 that /repo names,
from the tables below (`f?` is an optional member, `*f` a flattened one)."""
import re, os
STRUCTS = """
Position: Copy,PartialOrd,Ord,Hash,Default | line: u32, character: u32
Range: Copy,PartialOrd,Ord,Hash,Default | start: Position, end: Position
Location: Hash | uri: Uri, range: Range
LocationLink: | origin_selection_range?: Range, target_uri: Uri, target_range: Range, target_selection_range: Range
TextEdit: Default | range: Range, new_text: String
AnnotatedTextEdit: | annotation_id: String, *text_edit: TextEdit
SnippetTextEdit: | range: Range, snippet: Value, annotation_id?: String
TextDocumentIdentifier: | uri: Uri
VersionedTextDocumentIdentifier: | version: i32, *text_document_identifier: TextDocumentIdentifier
OptionalVersionedTextDocumentIdentifier: | version!: Option<i32>, *text_document_identifier: TextDocumentIdentifier
TextDocumentItem: | uri: Uri, language_id: String, version: i32, text: String
TextDocumentPositionParams: | text_document: TextDocumentIdentifier, position: Position
WorkDoneProgressParams: Default | work_done_token?: ProgressToken
PartialResultParams: Default | partial_result_token?: ProgressToken
WorkDoneProgressOptions: Copy,Default | work_done_progress?: bool
MarkupContent: | kind: MarkupKind, value: String
Command: Default | title: String, tooltip?: String, command: String, arguments?: Vec<Value>
Diagnostic: | range: Range, severity?: DiagnosticSeverity, code?: Code, code_description?: CodeDescription, source?: String, message: String, tags?: Vec<DiagnosticTag>, related_information?: Vec<DiagnosticRelatedInformation>, data?: Value
CodeDescription: | href: Uri
DiagnosticRelatedInformation: | location: Location, message: String
TextDocumentEdit: | text_document: OptionalVersionedTextDocumentIdentifier, edits: Vec<Edit>
CreateFileOptions: Default | overwrite?: bool, ignore_if_exists?: bool
CreateFile: | uri: Uri, options?: CreateFileOptions, annotation_id?: String
RenameFile: | old_uri: Uri, new_uri: Uri, options?: Value, annotation_id?: String
DeleteFile: | uri: Uri, options?: Value, annotation_id?: String
ChangeAnnotation: | label: String, needs_confirmation?: bool, description?: String
WorkspaceEdit: Default | changes?: HashMap<Uri, Vec<TextEdit>>, document_changes?: Vec<DocumentChange>, change_annotations?: HashMap<String, ChangeAnnotation>
CancelParams: | id: Id
ProgressParams: | token: ProgressToken, value: Value
WorkDoneProgressBegin: Default | title: String, cancellable?: bool, message?: String, percentage?: u32
WorkDoneProgressReport: Default | cancellable?: bool, message?: String, percentage?: u32
WorkDoneProgressEnd: Default | message?: String
WorkDoneProgressCreateParams: | token: ProgressToken
WorkDoneProgressCancelParams: | token: ProgressToken
ShowMessageParams: | kind@type: MessageType, message: String
ShowMessageRequestParams: | kind@type: MessageType, message: String, actions?: Vec<MessageActionItem>
MessageActionItem: | title: String
LogMessageParams: | kind@type: MessageType, message: String
Registration: | id: String, method: String, register_options?: Value
RegistrationParams: | registrations: Vec<Registration>
ConfigurationItem: Default | scope_uri?: Uri, section?: String
ConfigurationParams: | items: Vec<ConfigurationItem>
DidChangeConfigurationParams: | settings: Value
WorkspaceFolder: | uri: Uri, name: String
WorkspaceFoldersChangeEvent: | added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder>
DidChangeWorkspaceFoldersParams: | event: WorkspaceFoldersChangeEvent
FileEvent: | uri: Uri, kind@type: FileChangeType
DidChangeWatchedFilesParams: | changes: Vec<FileEvent>
FileSystemWatcher: | glob_pattern: GlobPattern, kind?: WatchKind
RelativePattern: | base_uri: BaseUri, pattern: String
DidChangeWatchedFilesRegistrationOptions: | watchers: Vec<FileSystemWatcher>
DidOpenTextDocumentParams: | text_document: TextDocumentItem
DidChangeTextDocumentParams: | text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent>
DidSaveTextDocumentParams: | text_document: TextDocumentIdentifier, text?: String
DidCloseTextDocumentParams: | text_document: TextDocumentIdentifier
TextDocumentContentChangePartial: Default | range: Range, range_length?: u32, text: String
TextDocumentContentChangeWholeDocument: Default | text: String
TextDocumentFilter: Default | language?: String, scheme?: String, pattern?: GlobPattern
SaveOptions: Default | include_text?: bool
TextDocumentRegistrationOptions: Default | document_selector!: Option<Vec<DocumentFilter>>
TextDocumentSaveRegistrationOptions: Default | *save_options: SaveOptions, *text_document_registration_options: TextDocumentRegistrationOptions
CompletionContext: | trigger_kind: CompletionTriggerKind, trigger_character?: String
CompletionParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, context?: CompletionContext
InsertReplaceEdit: | new_text: String, insert: Range, replace: Range
CompletionItemLabelDetails: Default | detail?: String, description?: String
CompletionItem: Default | label: String, label_details?: CompletionItemLabelDetails, kind?: CompletionItemKind, tags?: Vec<u32>, detail?: String, documentation?: Documentation, deprecated?: bool, preselect?: bool, sort_text?: String, filter_text?: String, insert_text?: String, insert_text_format?: InsertTextFormat, insert_text_mode?: u32, text_edit?: CompletionItemTextEdit, text_edit_text?: String, additional_text_edits?: Vec<TextEdit>, commit_characters?: Vec<String>, command?: Command, data?: Value
CompletionList: Default | is_incomplete: bool, item_defaults?: Value, apply_kind?: Value, items: Vec<CompletionItem>
HoverParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams
Hover: | contents: Contents, range?: Range
SignatureHelpParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, context?: Value
SignatureHelp: | signatures: Vec<SignatureInformation>, active_signature?: u32, active_parameter?: ActiveParameter
SignatureInformation: | label: String, documentation?: Documentation, parameters?: Vec<ParameterInformation>, active_parameter?: ActiveParameter
ParameterInformation: | label: ParameterInformationLabel, documentation?: Documentation
DefinitionParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams
ImplementationParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams
ReferenceContext: Copy | include_declaration: bool
ReferenceParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, context: ReferenceContext
DocumentHighlightParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams
DocumentHighlight: | range: Range, kind?: DocumentHighlightKind
DocumentSymbolParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier
BaseSymbolInformation: | name: String, kind: SymbolKind, tags?: Vec<u32>, container_name?: String
SymbolInformation: | deprecated?: bool, location: Location, *base_symbol_information: BaseSymbolInformation
DocumentSymbol: | name: String, detail?: String, kind: SymbolKind, tags?: Vec<u32>, deprecated?: bool, range: Range, selection_range: Range, children?: Vec<DocumentSymbol>
CodeActionContext: | diagnostics: Vec<Diagnostic>, only?: Vec<CodeActionKind>, trigger_kind?: CodeActionTriggerKind
CodeActionParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, range: Range, context: CodeActionContext
CodeActionDisabled: | reason: String
CodeAction: Default | title: String, kind?: CodeActionKind, diagnostics?: Vec<Diagnostic>, is_preferred?: bool, disabled?: CodeActionDisabled, edit?: WorkspaceEdit, command?: Command, data?: Value, tags?: Vec<u32>
WorkspaceSymbolParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, query: String
WorkspaceSymbol: | location: WorkspaceSymbolLocation, data?: Value, *base_symbol_information: BaseSymbolInformation
LocationUriOnly: | uri: Uri
CodeLensParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier
CodeLens: | range: Range, command?: Command, data?: Value
FormattingOptions: Default | tab_size: u32, insert_spaces: bool, trim_trailing_whitespace?: bool, insert_final_newline?: bool, trim_final_newlines?: bool
DocumentFormattingParams: | *work_done_progress_params: WorkDoneProgressParams, text_document: TextDocumentIdentifier, options: FormattingOptions
RenameParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams, new_name: String
PrepareRenameParams: | *text_document_position_params: TextDocumentPositionParams, *work_done_progress_params: WorkDoneProgressParams
PrepareRenamePlaceholder: | range: Range, placeholder: String
PrepareRenameDefaultBehavior: | default_behavior: bool
SelectionRangeParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, positions: Vec<Position>
SelectionRange: | range: Range, parent?: Box<SelectionRange>
SemanticTokensParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier
SemanticTokensRangeParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, range: Range
SemanticTokensLegend: Default | token_types: Vec<String>, token_modifiers: Vec<String>
SemanticTokensOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, legend: SemanticTokensLegend, range?: bool, full?: Full
SemanticTokensRegistrationOptions: Default | *text_document_registration_options: TextDocumentRegistrationOptions, *semantic_tokens_options: SemanticTokensOptions
SemanticTokensFullDelta: Default | delta?: bool
InlayHintParams: | *work_done_progress_params: WorkDoneProgressParams, text_document: TextDocumentIdentifier, range: Range
InlayHint: | position: Position, label: Label, kind?: InlayHintKind, text_edits?: Vec<TextEdit>, tooltip?: Tooltip, padding_left?: bool, padding_right?: bool, data?: Value
InlayHintLabelPart: | value: String, tooltip?: Tooltip, location?: Location, command?: Command
DocumentDiagnosticParams: | *work_done_progress_params: WorkDoneProgressParams, *partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, identifier?: String, previous_result_id?: String
FullDocumentDiagnosticReport: Default | result_id?: String, items: Vec<Diagnostic>
UnchangedDocumentDiagnosticReport: Default | result_id: String
RelatedFullDocumentDiagnosticReport: Default | related_documents?: HashMap<Uri, Value>, *full_document_diagnostic_report: FullDocumentDiagnosticReport
RelatedUnchangedDocumentDiagnosticReport: Default | related_documents?: HashMap<Uri, Value>, *unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport
DiagnosticServerCancellationData: | retrigger_request: bool
ClientInfo: | name: String, version?: String
ServerInfo: | name: String, version?: String
WorkspaceFoldersInitializeParams: Default | workspace_folders?: WorkspaceFolders
InitializeParams: Default | process_id!: Option<i32>, client_info?: ClientInfo, locale?: String, root_path?: String, root_uri!: Option<Uri>, capabilities: ClientCapabilities, initialization_options?: Value, trace?: String, *work_done_progress_params: WorkDoneProgressParams, *workspace_folders_initialize_params: WorkspaceFoldersInitializeParams
InitializeResult: Default | capabilities: ServerCapabilities, server_info?: ServerInfo
InitializedParams: Default |
ServerCapabilities: Default | position_encoding?: PositionEncodingKind, text_document_sync?: TextDocumentSync, completion_provider?: CompletionOptions, hover_provider?: HoverProvider, signature_help_provider?: SignatureHelpOptions, definition_provider?: DefinitionProvider, references_provider?: ReferencesProvider, document_highlight_provider?: DocumentHighlightProvider, document_symbol_provider?: DocumentSymbolProvider, code_action_provider?: CodeActionProvider, code_lens_provider?: CodeLensOptions, workspace_symbol_provider?: WorkspaceSymbolProvider, document_formatting_provider?: DocumentFormattingProvider, rename_provider?: RenameProvider, selection_range_provider?: SelectionRangeProvider, semantic_tokens_provider?: SemanticTokensProvider, inlay_hint_provider?: InlayHintProvider, diagnostic_provider?: DiagnosticProvider, workspace?: Value, experimental?: Value
TextDocumentSyncOptions: Default | open_close?: bool, change?: TextDocumentSyncKind, will_save?: bool, will_save_wait_until?: bool, save?: Value
ServerCompletionItemOptions: Default | label_details_support?: bool
CompletionOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, trigger_characters?: Vec<String>, all_commit_characters?: Vec<String>, resolve_provider?: bool, completion_item?: ServerCompletionItemOptions
SignatureHelpOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, trigger_characters?: Vec<String>, retrigger_characters?: Vec<String>
CodeActionOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, code_action_kinds?: Vec<CodeActionKind>, documentation?: Vec<Value>, resolve_provider?: bool
CodeLensOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, resolve_provider?: bool
RenameOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, prepare_provider?: bool
InlayHintOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, resolve_provider?: bool
DiagnosticOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, identifier?: String, inter_file_dependencies: bool, workspace_diagnostics: bool
HoverOptions: Default | *work_done_progress_options: WorkDoneProgressOptions
DefinitionOptions: Default | *work_done_progress_options: WorkDoneProgressOptions
ReferenceOptions: Default | *work_done_progress_options: WorkDoneProgressOptions
DocumentHighlightOptions: Default | *work_done_progress_options: WorkDoneProgressOptions
DocumentSymbolOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, label?: String
WorkspaceSymbolOptions: Default | *work_done_progress_options: WorkDoneProgressOptions, resolve_provider?: bool
DocumentFormattingOptions: Default | *work_done_progress_options: WorkDoneProgressOptions
SelectionRangeOptions: Default | *work_done_progress_options: WorkDoneProgressOptions
ClientCapabilities: Default | workspace?: WorkspaceClientCapabilities, text_document?: TextDocumentClientCapabilities, notebook_document?: Value, window?: WindowClientCapabilities, general?: GeneralClientCapabilities, experimental?: Value
GeneralClientCapabilities: Default | stale_request_support?: Value, regular_expressions?: Value, markdown?: Value, position_encodings?: Vec<PositionEncodingKind>
WindowClientCapabilities: Default | work_done_progress?: bool, show_message?: Value, show_document?: Value
WorkspaceClientCapabilities: Default | apply_edit?: bool, workspace_edit?: WorkspaceEditClientCapabilities, did_change_configuration?: DidChangeConfigurationClientCapabilities, did_change_watched_files?: DidChangeWatchedFilesClientCapabilities, symbol?: Value, execute_command?: Value, workspace_folders?: bool, configuration?: bool, semantic_tokens?: SemanticTokensWorkspaceClientCapabilities, code_lens?: CodeLensWorkspaceClientCapabilities, file_operations?: FileOperationClientCapabilities, inline_value?: Value, inlay_hint?: InlayHintWorkspaceClientCapabilities, diagnostics?: DiagnosticWorkspaceClientCapabilities
DidChangeConfigurationClientCapabilities: Copy,Default | dynamic_registration?: bool
DidChangeWatchedFilesClientCapabilities: Copy,Default | dynamic_registration?: bool, relative_pattern_support?: bool
ChangeAnnotationsSupportOptions: Copy,Default | groups_on_label?: bool
WorkspaceEditClientCapabilities: Default | document_changes?: bool, resource_operations?: Vec<ResourceOperationKind>, failure_handling?: Value, normalizes_line_endings?: bool, change_annotation_support?: ChangeAnnotationsSupportOptions
SemanticTokensWorkspaceClientCapabilities: Copy,Default | refresh_support?: bool
CodeLensWorkspaceClientCapabilities: Copy,Default | refresh_support?: bool
InlayHintWorkspaceClientCapabilities: Copy,Default | refresh_support?: bool
DiagnosticWorkspaceClientCapabilities: Copy,Default | refresh_support?: bool
FileOperationClientCapabilities: Copy,Default | dynamic_registration?: bool, did_create?: bool, will_create?: bool, did_rename?: bool, will_rename?: bool, did_delete?: bool, will_delete?: bool
TextDocumentClientCapabilities: Default | synchronization?: TextDocumentSyncClientCapabilities, completion?: CompletionClientCapabilities, hover?: HoverClientCapabilities, signature_help?: SignatureHelpClientCapabilities, definition?: DefinitionClientCapabilities, document_symbol?: DocumentSymbolClientCapabilities, code_action?: CodeActionClientCapabilities, inlay_hint?: InlayHintClientCapabilities, diagnostic?: DiagnosticClientCapabilities
TextDocumentSyncClientCapabilities: Copy,Default | dynamic_registration?: bool, will_save?: bool, will_save_wait_until?: bool, did_save?: bool
ClientCompletionItemResolveOptions: Default | properties: Vec<String>
ClientCompletionItemOptions: Default | snippet_support?: bool, commit_characters_support?: bool, documentation_format?: Vec<MarkupKind>, deprecated_support?: bool, preselect_support?: bool, insert_replace_support?: bool, resolve_support?: ClientCompletionItemResolveOptions, label_details_support?: bool
CompletionClientCapabilities: Default | dynamic_registration?: bool, completion_item?: ClientCompletionItemOptions, context_support?: bool
HoverClientCapabilities: Default | dynamic_registration?: bool, content_format?: Vec<MarkupKind>
ClientSignatureParameterInformationOptions: Copy,Default | label_offset_support?: bool
ClientSignatureInformationOptions: Default | documentation_format?: Vec<MarkupKind>, parameter_information?: ClientSignatureParameterInformationOptions, active_parameter_support?: bool
SignatureHelpClientCapabilities: Default | dynamic_registration?: bool, signature_information?: ClientSignatureInformationOptions, context_support?: bool
DefinitionClientCapabilities: Copy,Default | dynamic_registration?: bool, link_support?: bool
DocumentSymbolClientCapabilities: Copy,Default | dynamic_registration?: bool, hierarchical_document_symbol_support?: bool
ClientCodeActionKindOptions: Default | value_set: Vec<CodeActionKind>
ClientCodeActionLiteralOptions: Default | code_action_kind: ClientCodeActionKindOptions
ClientCodeActionResolveOptions: Default | properties: Vec<String>
CodeActionClientCapabilities: Default | dynamic_registration?: bool, code_action_literal_support?: ClientCodeActionLiteralOptions, is_preferred_support?: bool, disabled_support?: bool, data_support?: bool, resolve_support?: ClientCodeActionResolveOptions
ClientInlayHintResolveOptions: Default | properties: Vec<String>
InlayHintClientCapabilities: Default | dynamic_registration?: bool, resolve_support?: ClientInlayHintResolveOptions
DiagnosticClientCapabilities: Copy,Default | dynamic_registration?: bool, related_document_support?: bool
"""
NUM = {
 "SymbolKind": "File Module Namespace Package Class Method Property Field Constructor Enum Interface Function Variable Constant String Number Boolean Array Object Key Null EnumMember Struct Event Operator TypeParameter",
 "CompletionItemKind": "Text Method Function Constructor Field Variable Class Interface Module Property Unit Value Enum Keyword Snippet Color File Reference Folder EnumMember Constant Struct Event Operator TypeParameter",
 "InsertTextFormat": "PlainText Snippet",
 "DiagnosticSeverity": "Error Warning Information Hint",
 "DiagnosticTag": "Unnecessary Deprecated",
 "MessageType": "Error Warning Info Log Debug",
 "TextDocumentSyncKind": "=0 None Full Incremental",
 "InlayHintKind": "Type Parameter",
 "DocumentHighlightKind": "Text Read Write",
 "FileChangeType": "Created Changed Deleted",
 "CompletionTriggerKind": "Invoked TriggerCharacter TriggerForIncompleteCompletions",
 "CodeActionTriggerKind": "Invoked Automatic",
}
STR = {
 "MarkupKind": "PlainText=plaintext Markdown=markdown",
 "ResourceOperationKind": "Create=create Rename=rename Delete=delete",
 "CodeActionKind": "Empty= QuickFix=quickfix Refactor=refactor RefactorExtract=refactor.extract RefactorInline=refactor.inline RefactorMove=refactor.move RefactorRewrite=refactor.rewrite Source=source SourceOrganizeImports=source.organizeImports SourceFixAll=source.fixAll Notebook=notebook",
 "PositionEncodingKind": "UTF8=utf-8 UTF16=utf-16 UTF32=utf-32",
 "SemanticTokenTypes": "Namespace=namespace Type=type Class=class Enum=enum Interface=interface Struct=struct TypeParameter=typeParameter Parameter=parameter Variable=variable Property=property EnumMember=enumMember Event=event Function=function Method=method Macro=macro Keyword=keyword Modifier=modifier Comment=comment String=string Number=number Regexp=regexp Operator=operator Decorator=decorator Label=label",
}
UNION = {  # untagged, in the order tried; the first column of each pair is the variant
 "Id": "Int i32, String String",
 "ProgressToken": "Int i32, String String",
 "Code": "Int i32, String String",
 "Edit": "AnnotatedTextEdit AnnotatedTextEdit, SnippetTextEdit SnippetTextEdit, TextEdit TextEdit",
 "TextDocumentContentChangeEvent": "TextDocumentContentChangePartial TextDocumentContentChangePartial, TextDocumentContentChangeWholeDocument TextDocumentContentChangeWholeDocument",
 "Documentation": "String String, MarkupContent MarkupContent",
 "Contents": "MarkupContent MarkupContent, Value Value",
 "Tooltip": "String String, MarkupContent MarkupContent",
 "Label": "String String, InlayHintLabelPartList Vec<InlayHintLabelPart>",
 "CompletionItemTextEdit": "TextEdit TextEdit, InsertReplaceEdit InsertReplaceEdit",
 "ActiveParameter": "Int u32, Null ()",
 "ParameterInformationLabel": "String String, Tuple (u32,u32)",
 "Definition": "Location Location, LocationList Vec<Location>",
 "DefinitionResponse": "DefinitionLinkList Vec<LocationLink>, Definition Definition",
 "DocumentSymbolResponse": "DocumentSymbolList Vec<DocumentSymbol>, SymbolInformationList Vec<SymbolInformation>",
 "WorkspaceSymbolResponse": "SymbolInformationList Vec<SymbolInformation>, WorkspaceSymbolList Vec<WorkspaceSymbol>",
 "WorkspaceSymbolLocation": "Location Location, LocationUriOnly LocationUriOnly",
 "CompletionResponse": "CompletionList CompletionList, CompletionItemList Vec<CompletionItem>",
 "CodeActionResponse": "Command Command, CodeAction CodeAction",
 "PrepareRenameResult": "Range Range, PrepareRenamePlaceholder PrepareRenamePlaceholder, PrepareRenameDefaultBehavior PrepareRenameDefaultBehavior",
 "WorkspaceFolders": "WorkspaceFolderList Vec<WorkspaceFolder>, Null ()",
 "TextDocumentSync": "Options TextDocumentSyncOptions, Kind TextDocumentSyncKind",
 "Full": "Bool bool, SemanticTokensFullDelta SemanticTokensFullDelta",
 "GlobPattern": "Pattern String, RelativePattern RelativePattern",
 "BaseUri": "Uri Uri, WorkspaceFolder WorkspaceFolder",
 "DocumentFilter": "TextDocumentFilter TextDocumentFilter, Value Value",
 "SemanticTokensProvider": "SemanticTokensRegistrationOptions SemanticTokensRegistrationOptions, SemanticTokensOptions SemanticTokensOptions",
 "DiagnosticProvider": "DiagnosticOptions DiagnosticOptions",
}
for p, o in [("Hover", "HoverOptions"), ("Definition", "DefinitionOptions"), ("References", "ReferenceOptions"),
             ("DocumentHighlight", "DocumentHighlightOptions"), ("DocumentSymbol", "DocumentSymbolOptions"),
             ("WorkspaceSymbol", "WorkspaceSymbolOptions"), ("DocumentFormatting", "DocumentFormattingOptions"),
             ("Rename", "RenameOptions"), ("SelectionRange", "SelectionRangeOptions"),
             ("CodeAction", "CodeActionOptions"), ("InlayHint", "InlayHintOptions")]:
    UNION[p + "Provider"] = "Bool bool, %s %s" % (o, o)
REQUESTS = """
InitializeRequest initialize InitializeParams InitializeResult C
ShutdownRequest shutdown () () C
CompletionRequest textDocument/completion CompletionParams Option<CompletionResponse> C
CompletionResolveRequest completionItem/resolve CompletionItem CompletionItem C
HoverRequest textDocument/hover HoverParams Option<Hover> C
SignatureHelpRequest textDocument/signatureHelp SignatureHelpParams Option<SignatureHelp> C
DefinitionRequest textDocument/definition DefinitionParams Option<DefinitionResponse> C
ReferencesRequest textDocument/references ReferenceParams Option<Vec<Location>> C
DocumentHighlightRequest textDocument/documentHighlight DocumentHighlightParams Option<Vec<DocumentHighlight>> C
DocumentSymbolRequest textDocument/documentSymbol DocumentSymbolParams Option<DocumentSymbolResponse> C
CodeActionRequest textDocument/codeAction CodeActionParams Option<Vec<CodeActionResponse>> C
CodeActionResolveRequest codeAction/resolve CodeAction CodeAction C
WorkspaceSymbolRequest workspace/symbol WorkspaceSymbolParams Option<WorkspaceSymbolResponse> C
CodeLensRequest textDocument/codeLens CodeLensParams Option<Vec<CodeLens>> C
CodeLensResolveRequest codeLens/resolve CodeLens CodeLens C
DocumentFormattingRequest textDocument/formatting DocumentFormattingParams Option<Vec<TextEdit>> C
RenameRequest textDocument/rename RenameParams Option<WorkspaceEdit> C
PrepareRenameRequest textDocument/prepareRename PrepareRenameParams Option<PrepareRenameResult> C
SelectionRangeRequest textDocument/selectionRange SelectionRangeParams Option<Vec<SelectionRange>> C
SemanticTokensRequest textDocument/semanticTokens/full SemanticTokensParams Option<SemanticTokens> C
SemanticTokensRangeRequest textDocument/semanticTokens/range SemanticTokensRangeParams Option<SemanticTokens> C
InlayHintRequest textDocument/inlayHint InlayHintParams Option<Vec<InlayHint>> C
InlayHintResolveRequest inlayHint/resolve InlayHint InlayHint C
DocumentDiagnosticRequest textDocument/diagnostic DocumentDiagnosticParams DocumentDiagnosticReport C
ShowMessageRequest window/showMessageRequest ShowMessageRequestParams Option<MessageActionItem> S
WorkDoneProgressCreateRequest window/workDoneProgress/create WorkDoneProgressCreateParams () S
RegistrationRequest client/registerCapability RegistrationParams () S
ConfigurationRequest workspace/configuration ConfigurationParams Vec<Value> S
SemanticTokensRefreshRequest workspace/semanticTokens/refresh () () S
CodeLensRefreshRequest workspace/codeLens/refresh () () S
InlayHintRefreshRequest workspace/inlayHint/refresh () () S
DiagnosticRefreshRequest workspace/diagnostic/refresh () () S
"""
NOTIFICATIONS = """
InitializedNotification initialized InitializedParams C
ExitNotification exit () C
CancelNotification $/cancelRequest CancelParams B
ProgressNotification $/progress ProgressParams B
ShowMessageNotification window/showMessage ShowMessageParams S
LogMessageNotification window/logMessage LogMessageParams S
WorkDoneProgressCancelNotification window/workDoneProgress/cancel WorkDoneProgressCancelParams C
DidOpenTextDocumentNotification textDocument/didOpen DidOpenTextDocumentParams C
DidChangeTextDocumentNotification textDocument/didChange DidChangeTextDocumentParams C
DidCloseTextDocumentNotification textDocument/didClose DidCloseTextDocumentParams C
DidSaveTextDocumentNotification textDocument/didSave DidSaveTextDocumentParams C
DidChangeConfigurationNotification workspace/didChangeConfiguration DidChangeConfigurationParams C
DidChangeWorkspaceFoldersNotification workspace/didChangeWorkspaceFolders DidChangeWorkspaceFoldersParams C
DidChangeWatchedFilesNotification workspace/didChangeWatchedFiles DidChangeWatchedFilesParams C
"""
def split(text):
    """At the commas outside of brackets."""
    res, depth = [""], 0
    for c in text:
        depth += (c in "<(") - (c in ">)")
        if c == "," and depth == 0:
            res.append("")
        else:
            res[-1] += c
    return res
out = ["// Written by gen.py.", "use super::*;", ""]
w = out.append
for line in STRUCTS.strip().split("\n"):
    name, rest = line.split(":", 1)
    derives, fields = rest.split("|", 1)
    derives = [d for d in derives.strip().split(",") if d]
    w("#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize%s)]" % "".join(", " + d for d in derives))
    kind = {"WorkDoneProgressBegin": "begin", "WorkDoneProgressReport": "report", "WorkDoneProgressEnd": "end",
            "FullDocumentDiagnosticReport": "full", "CreateFile": "create", "RenameFile": "rename",
            "DeleteFile": "delete"}.get(name)
    w('#[serde(rename_all = "camelCase"%s)]' % (', tag = "kind", rename = "%s"' % kind if kind else ""))
    w("pub struct %s {" % name)
    fields = [f.strip() for f in split(fields) if f.strip()]
    names = []
    for f in fields:
        k, t = [x.strip() for x in f.split(":", 1)]
        k = k.strip()
        if k.startswith("*"):
            w("    #[serde(flatten)]"); k = k[1:]
        elif k.endswith("?"):
            k = k[:-1]; t = "Option<%s>" % t
            w('    #[serde(default, skip_serializing_if = "Option::is_none")]')
        elif k.endswith("!"):
            k = k[:-1]
            w("    #[serde(default)]")
        if "@" in k:
            k, ren = k.split("@")
            w('    #[serde(rename = "%s")]' % ren)
        w("    pub %s: %s," % (k, t))
        names.append((k, t))
    w("}")
    if names:
        w("impl %s {" % name)
        w("    #[allow(clippy::too_many_arguments)]")
        w("    pub const fn new(%s) -> Self { Self { %s } }" % (", ".join("%s: %s" % x for x in names), ", ".join(x[0] for x in names)))
        w("}")
for n, vs in NUM.items():
    vs = vs.split()
    i = 1
    if vs[0].startswith("="):
        i = int(vs[0][1:]); vs = vs[1:]
    w("#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]\npub enum %s { %s }" % (n, ", ".join("%s = %d" % (v, i + j) for j, v in enumerate(vs))))
    w("impl Serialize for %s { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }" % n)
    w("impl<'de> Deserialize<'de> for %s { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { %s, other => Err(serde::de::Error::custom(format!(\"unknown %s {other}\"))) } } }"
      % (n, ", ".join("%d => Ok(Self::%s)" % (i + j, v) for j, v in enumerate(vs)), n))
CLOSED = ("MarkupKind", "ResourceOperationKind")
for n, vs in STR.items():
    pairs = [v.split("=") for v in vs.split()]
    custom = n not in CLOSED
    w("#[derive(Debug, Clone, PartialEq, Eq, Hash%s)]\npub enum %s { %s%s }" % ("" if custom else ", Copy", n, ", ".join(p[0] for p in pairs), ", Custom(std::borrow::Cow<'static, str>)" if custom else ""))
    w("impl %s {" % n)
    if custom:
        w("    pub const fn new(s: &'static str) -> Self { Self::Custom(std::borrow::Cow::Borrowed(s)) }")
    w("    pub fn as_str(&self) -> &str { match self { %s%s } }\n}" % (", ".join('Self::%s => "%s"' % tuple(p) for p in pairs), ", Self::Custom(s) => s" if custom else ""))
    arms = ", ".join('"%s" => Self::%s' % (p[1], p[0]) for p in pairs)
    if custom:
        w("impl From<String> for %s { fn from(s: String) -> Self { match s.as_str() { %s, _ => Self::Custom(s.into()) } } }" % (n, arms))
        w("impl From<&'static str> for %s { fn from(s: &'static str) -> Self { Self::from(s.to_owned()) } }" % n)
        body = "Ok(String::deserialize(d)?.into())"
    else:
        body = 'Ok(match String::deserialize(d)?.as_str() { %s, other => return Err(serde::de::Error::custom(format!("unknown %s {other}"))) })' % (arms, n)
    w("impl Serialize for %s { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }" % n)
    w("impl<'de> Deserialize<'de> for %s { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { %s } }" % (n, body))
for n, vs in UNION.items():
    pairs = [v.strip().split(" ", 1) for v in split(vs)]
    copy = ", Copy" if n == "ActiveParameter" else ""
    hsh = ", Hash" if n in ("Id", "ProgressToken") else ""
    w("#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize%s%s)]\n#[serde(untagged)]\npub enum %s { %s }" % (copy, hsh, n, ", ".join("%s(%s)" % (a, b) if b != "()" else a for a, b in pairs)))
    for a, b in pairs:
        if b != "()":
            w("impl From<%s> for %s { fn from(it: %s) -> Self { Self::%s(it) } }" % (b, n, b, a))
for line in REQUESTS.strip().split("\n"):
    n, m, p, r, d = line.split(" ")
    w("#[derive(Debug)]\npub enum %s {}" % n)
    w('impl Request for %s { type Params = %s; type Result = %s; const METHOD: LspRequestMethod = LspRequestMethod::new("%s"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::%s; }' % (n, p, r, m, {"C": "ClientToServer", "S": "ServerToClient", "B": "Both"}[d]))
for line in NOTIFICATIONS.strip().split("\n"):
    n, m, p, d = line.split(" ")
    w("#[derive(Debug)]\npub enum %s {}" % n)
    w('impl Notification for %s { type Params = %s; const METHOD: LspNotificationMethod = LspNotificationMethod::new("%s"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::%s; }' % (n, p, m, {"C": "ClientToServer", "S": "ServerToClient", "B": "Both"}[d]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "gen.rs"), "w").write("\n".join(out) + "\n")
