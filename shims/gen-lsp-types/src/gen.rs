// Written by gen.py.
use super::*;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, PartialOrd, Ord, Hash, Default)]
#[serde(rename_all = "camelCase")]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(line: u32, character: u32) -> Self { Self { line, character } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, PartialOrd, Ord, Hash, Default)]
#[serde(rename_all = "camelCase")]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(start: Position, end: Position) -> Self { Self { start, end } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
#[serde(rename_all = "camelCase")]
pub struct Location {
    pub uri: Uri,
    pub range: Range,
}
impl Location {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri, range: Range) -> Self { Self { uri, range } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct LocationLink {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub origin_selection_range: Option<Range>,
    pub target_uri: Uri,
    pub target_range: Range,
    pub target_selection_range: Range,
}
impl LocationLink {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(origin_selection_range: Option<Range>, target_uri: Uri, target_range: Range, target_selection_range: Range) -> Self { Self { origin_selection_range, target_uri, target_range, target_selection_range } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextEdit {
    pub range: Range,
    pub new_text: String,
}
impl TextEdit {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, new_text: String) -> Self { Self { range, new_text } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct AnnotatedTextEdit {
    pub annotation_id: String,
    #[serde(flatten)]
    pub text_edit: TextEdit,
}
impl AnnotatedTextEdit {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(annotation_id: String, text_edit: TextEdit) -> Self { Self { annotation_id, text_edit } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SnippetTextEdit {
    pub range: Range,
    pub snippet: Value,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl SnippetTextEdit {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, snippet: Value, annotation_id: Option<String>) -> Self { Self { range, snippet, annotation_id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentIdentifier {
    pub uri: Uri,
}
impl TextDocumentIdentifier {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri) -> Self { Self { uri } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct VersionedTextDocumentIdentifier {
    pub version: i32,
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
}
impl VersionedTextDocumentIdentifier {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(version: i32, text_document_identifier: TextDocumentIdentifier) -> Self { Self { version, text_document_identifier } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct OptionalVersionedTextDocumentIdentifier {
    #[serde(default)]
    pub version: Option<i32>,
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
}
impl OptionalVersionedTextDocumentIdentifier {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(version: Option<i32>, text_document_identifier: TextDocumentIdentifier) -> Self { Self { version, text_document_identifier } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentItem {
    pub uri: Uri,
    pub language_id: String,
    pub version: i32,
    pub text: String,
}
impl TextDocumentItem {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri, language_id: String, version: i32, text: String) -> Self { Self { uri, language_id, version, text } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentPositionParams {
    pub text_document: TextDocumentIdentifier,
    pub position: Position,
}
impl TextDocumentPositionParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document: TextDocumentIdentifier, position: Position) -> Self { Self { text_document, position } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_token: Option<ProgressToken>,
}
impl WorkDoneProgressParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_token: Option<ProgressToken>) -> Self { Self { work_done_token } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct PartialResultParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub partial_result_token: Option<ProgressToken>,
}
impl PartialResultParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(partial_result_token: Option<ProgressToken>) -> Self { Self { partial_result_token } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_progress: Option<bool>,
}
impl WorkDoneProgressOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress: Option<bool>) -> Self { Self { work_done_progress } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct MarkupContent {
    pub kind: MarkupKind,
    pub value: String,
}
impl MarkupContent {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(kind: MarkupKind, value: String) -> Self { Self { kind, value } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Command {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<String>,
    pub command: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub arguments: Option<Vec<Value>>,
}
impl Command {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(title: String, tooltip: Option<String>, command: String, arguments: Option<Vec<Value>>) -> Self { Self { title, tooltip, command, arguments } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Diagnostic {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub severity: Option<DiagnosticSeverity>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code: Option<Code>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_description: Option<CodeDescription>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub source: Option<String>,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<DiagnosticTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_information: Option<Vec<DiagnosticRelatedInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
impl Diagnostic {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, severity: Option<DiagnosticSeverity>, code: Option<Code>, code_description: Option<CodeDescription>, source: Option<String>, message: String, tags: Option<Vec<DiagnosticTag>>, related_information: Option<Vec<DiagnosticRelatedInformation>>, data: Option<Value>) -> Self { Self { range, severity, code, code_description, source, message, tags, related_information, data } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeDescription {
    pub href: Uri,
}
impl CodeDescription {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(href: Uri) -> Self { Self { href } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticRelatedInformation {
    pub location: Location,
    pub message: String,
}
impl DiagnosticRelatedInformation {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(location: Location, message: String) -> Self { Self { location, message } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentEdit {
    pub text_document: OptionalVersionedTextDocumentIdentifier,
    pub edits: Vec<Edit>,
}
impl TextDocumentEdit {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document: OptionalVersionedTextDocumentIdentifier, edits: Vec<Edit>) -> Self { Self { text_document, edits } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CreateFileOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub overwrite: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ignore_if_exists: Option<bool>,
}
impl CreateFileOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(overwrite: Option<bool>, ignore_if_exists: Option<bool>) -> Self { Self { overwrite, ignore_if_exists } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "create")]
pub struct CreateFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<CreateFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl CreateFile {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri, options: Option<CreateFileOptions>, annotation_id: Option<String>) -> Self { Self { uri, options, annotation_id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "rename")]
pub struct RenameFile {
    pub old_uri: Uri,
    pub new_uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl RenameFile {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(old_uri: Uri, new_uri: Uri, options: Option<Value>, annotation_id: Option<String>) -> Self { Self { old_uri, new_uri, options, annotation_id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "delete")]
pub struct DeleteFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl DeleteFile {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri, options: Option<Value>, annotation_id: Option<String>) -> Self { Self { uri, options, annotation_id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ChangeAnnotation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub needs_confirmation: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}
impl ChangeAnnotation {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(label: String, needs_confirmation: Option<bool>, description: Option<String>) -> Self { Self { label, needs_confirmation, description } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceEdit {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub changes: Option<HashMap<Uri, Vec<TextEdit>>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_changes: Option<Vec<DocumentChange>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change_annotations: Option<HashMap<String, ChangeAnnotation>>,
}
impl WorkspaceEdit {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(changes: Option<HashMap<Uri, Vec<TextEdit>>>, document_changes: Option<Vec<DocumentChange>>, change_annotations: Option<HashMap<String, ChangeAnnotation>>) -> Self { Self { changes, document_changes, change_annotations } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CancelParams {
    pub id: Id,
}
impl CancelParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(id: Id) -> Self { Self { id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ProgressParams {
    pub token: ProgressToken,
    pub value: Value,
}
impl ProgressParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(token: ProgressToken, value: Value) -> Self { Self { token, value } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "begin")]
pub struct WorkDoneProgressBegin {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}
impl WorkDoneProgressBegin {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(title: String, cancellable: Option<bool>, message: Option<String>, percentage: Option<u32>) -> Self { Self { title, cancellable, message, percentage } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "report")]
pub struct WorkDoneProgressReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}
impl WorkDoneProgressReport {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(cancellable: Option<bool>, message: Option<String>, percentage: Option<u32>) -> Self { Self { cancellable, message, percentage } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "end")]
pub struct WorkDoneProgressEnd {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
}
impl WorkDoneProgressEnd {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(message: Option<String>) -> Self { Self { message } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressCreateParams {
    pub token: ProgressToken,
}
impl WorkDoneProgressCreateParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(token: ProgressToken) -> Self { Self { token } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressCancelParams {
    pub token: ProgressToken,
}
impl WorkDoneProgressCancelParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(token: ProgressToken) -> Self { Self { token } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ShowMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}
impl ShowMessageParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(kind: MessageType, message: String) -> Self { Self { kind, message } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ShowMessageRequestParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub actions: Option<Vec<MessageActionItem>>,
}
impl ShowMessageRequestParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(kind: MessageType, message: String, actions: Option<Vec<MessageActionItem>>) -> Self { Self { kind, message, actions } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct MessageActionItem {
    pub title: String,
}
impl MessageActionItem {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(title: String) -> Self { Self { title } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct LogMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}
impl LogMessageParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(kind: MessageType, message: String) -> Self { Self { kind, message } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Registration {
    pub id: String,
    pub method: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub register_options: Option<Value>,
}
impl Registration {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(id: String, method: String, register_options: Option<Value>) -> Self { Self { id, method, register_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RegistrationParams {
    pub registrations: Vec<Registration>,
}
impl RegistrationParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(registrations: Vec<Registration>) -> Self { Self { registrations } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ConfigurationItem {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scope_uri: Option<Uri>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub section: Option<String>,
}
impl ConfigurationItem {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(scope_uri: Option<Uri>, section: Option<String>) -> Self { Self { scope_uri, section } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ConfigurationParams {
    pub items: Vec<ConfigurationItem>,
}
impl ConfigurationParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(items: Vec<ConfigurationItem>) -> Self { Self { items } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeConfigurationParams {
    pub settings: Value,
}
impl DidChangeConfigurationParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(settings: Value) -> Self { Self { settings } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFolder {
    pub uri: Uri,
    pub name: String,
}
impl WorkspaceFolder {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri, name: String) -> Self { Self { uri, name } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFoldersChangeEvent {
    pub added: Vec<WorkspaceFolder>,
    pub removed: Vec<WorkspaceFolder>,
}
impl WorkspaceFoldersChangeEvent {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder>) -> Self { Self { added, removed } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWorkspaceFoldersParams {
    pub event: WorkspaceFoldersChangeEvent,
}
impl DidChangeWorkspaceFoldersParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(event: WorkspaceFoldersChangeEvent) -> Self { Self { event } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FileEvent {
    pub uri: Uri,
    #[serde(rename = "type")]
    pub kind: FileChangeType,
}
impl FileEvent {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri, kind: FileChangeType) -> Self { Self { uri, kind } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesParams {
    pub changes: Vec<FileEvent>,
}
impl DidChangeWatchedFilesParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(changes: Vec<FileEvent>) -> Self { Self { changes } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FileSystemWatcher {
    pub glob_pattern: GlobPattern,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<WatchKind>,
}
impl FileSystemWatcher {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(glob_pattern: GlobPattern, kind: Option<WatchKind>) -> Self { Self { glob_pattern, kind } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RelativePattern {
    pub base_uri: BaseUri,
    pub pattern: String,
}
impl RelativePattern {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(base_uri: BaseUri, pattern: String) -> Self { Self { base_uri, pattern } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesRegistrationOptions {
    pub watchers: Vec<FileSystemWatcher>,
}
impl DidChangeWatchedFilesRegistrationOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(watchers: Vec<FileSystemWatcher>) -> Self { Self { watchers } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidOpenTextDocumentParams {
    pub text_document: TextDocumentItem,
}
impl DidOpenTextDocumentParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document: TextDocumentItem) -> Self { Self { text_document } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeTextDocumentParams {
    pub text_document: VersionedTextDocumentIdentifier,
    pub content_changes: Vec<TextDocumentContentChangeEvent>,
}
impl DidChangeTextDocumentParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent>) -> Self { Self { text_document, content_changes } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidSaveTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
}
impl DidSaveTextDocumentParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document: TextDocumentIdentifier, text: Option<String>) -> Self { Self { text_document, text } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidCloseTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
}
impl DidCloseTextDocumentParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document: TextDocumentIdentifier) -> Self { Self { text_document } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentContentChangePartial {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range_length: Option<u32>,
    pub text: String,
}
impl TextDocumentContentChangePartial {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, range_length: Option<u32>, text: String) -> Self { Self { range, range_length, text } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentContentChangeWholeDocument {
    pub text: String,
}
impl TextDocumentContentChangeWholeDocument {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text: String) -> Self { Self { text } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentFilter {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub language: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scheme: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pattern: Option<GlobPattern>,
}
impl TextDocumentFilter {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(language: Option<String>, scheme: Option<String>, pattern: Option<GlobPattern>) -> Self { Self { language, scheme, pattern } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SaveOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub include_text: Option<bool>,
}
impl SaveOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(include_text: Option<bool>) -> Self { Self { include_text } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentRegistrationOptions {
    #[serde(default)]
    pub document_selector: Option<Vec<DocumentFilter>>,
}
impl TextDocumentRegistrationOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(document_selector: Option<Vec<DocumentFilter>>) -> Self { Self { document_selector } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentSaveRegistrationOptions {
    #[serde(flatten)]
    pub save_options: SaveOptions,
    #[serde(flatten)]
    pub text_document_registration_options: TextDocumentRegistrationOptions,
}
impl TextDocumentSaveRegistrationOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(save_options: SaveOptions, text_document_registration_options: TextDocumentRegistrationOptions) -> Self { Self { save_options, text_document_registration_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CompletionContext {
    pub trigger_kind: CompletionTriggerKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_character: Option<String>,
}
impl CompletionContext {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(trigger_kind: CompletionTriggerKind, trigger_character: Option<String>) -> Self { Self { trigger_kind, trigger_character } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CompletionParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<CompletionContext>,
}
impl CompletionParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, context: Option<CompletionContext>) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params, context } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InsertReplaceEdit {
    pub new_text: String,
    pub insert: Range,
    pub replace: Range,
}
impl InsertReplaceEdit {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(new_text: String, insert: Range, replace: Range) -> Self { Self { new_text, insert, replace } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItemLabelDetails {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}
impl CompletionItemLabelDetails {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(detail: Option<String>, description: Option<String>) -> Self { Self { detail, description } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItem {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details: Option<CompletionItemLabelDetails>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CompletionItemKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<u32>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub preselect: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sort_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub filter_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text_format: Option<InsertTextFormat>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text_mode: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edit: Option<CompletionItemTextEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edit_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub additional_text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
impl CompletionItem {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(label: String, label_details: Option<CompletionItemLabelDetails>, kind: Option<CompletionItemKind>, tags: Option<Vec<u32>>, detail: Option<String>, documentation: Option<Documentation>, deprecated: Option<bool>, preselect: Option<bool>, sort_text: Option<String>, filter_text: Option<String>, insert_text: Option<String>, insert_text_format: Option<InsertTextFormat>, insert_text_mode: Option<u32>, text_edit: Option<CompletionItemTextEdit>, text_edit_text: Option<String>, additional_text_edits: Option<Vec<TextEdit>>, commit_characters: Option<Vec<String>>, command: Option<Command>, data: Option<Value>) -> Self { Self { label, label_details, kind, tags, detail, documentation, deprecated, preselect, sort_text, filter_text, insert_text, insert_text_format, insert_text_mode, text_edit, text_edit_text, additional_text_edits, commit_characters, command, data } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionList {
    pub is_incomplete: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub item_defaults: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub apply_kind: Option<Value>,
    pub items: Vec<CompletionItem>,
}
impl CompletionList {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(is_incomplete: bool, item_defaults: Option<Value>, apply_kind: Option<Value>, items: Vec<CompletionItem>) -> Self { Self { is_incomplete, item_defaults, apply_kind, items } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct HoverParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl HoverParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { text_document_position_params, work_done_progress_params } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Hover {
    pub contents: Contents,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<Range>,
}
impl Hover {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(contents: Contents, range: Option<Range>) -> Self { Self { contents, range } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<Value>,
}
impl SignatureHelpParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, context: Option<Value>) -> Self { Self { text_document_position_params, work_done_progress_params, context } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelp {
    pub signatures: Vec<SignatureInformation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_signature: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter: Option<ActiveParameter>,
}
impl SignatureHelp {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(signatures: Vec<SignatureInformation>, active_signature: Option<u32>, active_parameter: Option<ActiveParameter>) -> Self { Self { signatures, active_signature, active_parameter } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SignatureInformation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameters: Option<Vec<ParameterInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter: Option<ActiveParameter>,
}
impl SignatureInformation {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(label: String, documentation: Option<Documentation>, parameters: Option<Vec<ParameterInformation>>, active_parameter: Option<ActiveParameter>) -> Self { Self { label, documentation, parameters, active_parameter } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ParameterInformation {
    pub label: ParameterInformationLabel,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
}
impl ParameterInformation {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(label: ParameterInformationLabel, documentation: Option<Documentation>) -> Self { Self { label, documentation } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl DefinitionParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ImplementationParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl ImplementationParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceContext {
    pub include_declaration: bool,
}
impl ReferenceContext {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(include_declaration: bool) -> Self { Self { include_declaration } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub context: ReferenceContext,
}
impl ReferenceParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, context: ReferenceContext) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params, context } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlightParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl DocumentHighlightParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlight {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<DocumentHighlightKind>,
}
impl DocumentHighlight {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, kind: Option<DocumentHighlightKind>) -> Self { Self { range, kind } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
}
impl DocumentSymbolParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier) -> Self { Self { work_done_progress_params, partial_result_params, text_document } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct BaseSymbolInformation {
    pub name: String,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<u32>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub container_name: Option<String>,
}
impl BaseSymbolInformation {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(name: String, kind: SymbolKind, tags: Option<Vec<u32>>, container_name: Option<String>) -> Self { Self { name, kind, tags, container_name } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SymbolInformation {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub location: Location,
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
}
impl SymbolInformation {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(deprecated: Option<bool>, location: Location, base_symbol_information: BaseSymbolInformation) -> Self { Self { deprecated, location, base_symbol_information } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbol {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<u32>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub range: Range,
    pub selection_range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub children: Option<Vec<DocumentSymbol>>,
}
impl DocumentSymbol {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(name: String, detail: Option<String>, kind: SymbolKind, tags: Option<Vec<u32>>, deprecated: Option<bool>, range: Range, selection_range: Range, children: Option<Vec<DocumentSymbol>>) -> Self { Self { name, detail, kind, tags, deprecated, range, selection_range, children } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionContext {
    pub diagnostics: Vec<Diagnostic>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub only: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_kind: Option<CodeActionTriggerKind>,
}
impl CodeActionContext {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(diagnostics: Vec<Diagnostic>, only: Option<Vec<CodeActionKind>>, trigger_kind: Option<CodeActionTriggerKind>) -> Self { Self { diagnostics, only, trigger_kind } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    pub context: CodeActionContext,
}
impl CodeActionParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, range: Range, context: CodeActionContext) -> Self { Self { work_done_progress_params, partial_result_params, text_document, range, context } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionDisabled {
    pub reason: String,
}
impl CodeActionDisabled {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(reason: String) -> Self { Self { reason } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeAction {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CodeActionKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<Vec<Diagnostic>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub is_preferred: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disabled: Option<CodeActionDisabled>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub edit: Option<WorkspaceEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<u32>>,
}
impl CodeAction {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(title: String, kind: Option<CodeActionKind>, diagnostics: Option<Vec<Diagnostic>>, is_preferred: Option<bool>, disabled: Option<CodeActionDisabled>, edit: Option<WorkspaceEdit>, command: Option<Command>, data: Option<Value>, tags: Option<Vec<u32>>) -> Self { Self { title, kind, diagnostics, is_preferred, disabled, edit, command, data, tags } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbolParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub query: String,
}
impl WorkspaceSymbolParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, query: String) -> Self { Self { work_done_progress_params, partial_result_params, query } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbol {
    pub location: WorkspaceSymbolLocation,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
}
impl WorkspaceSymbol {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(location: WorkspaceSymbolLocation, data: Option<Value>, base_symbol_information: BaseSymbolInformation) -> Self { Self { location, data, base_symbol_information } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct LocationUriOnly {
    pub uri: Uri,
}
impl LocationUriOnly {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(uri: Uri) -> Self { Self { uri } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
}
impl CodeLensParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier) -> Self { Self { work_done_progress_params, partial_result_params, text_document } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeLens {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
impl CodeLens {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, command: Option<Command>, data: Option<Value>) -> Self { Self { range, command, data } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct FormattingOptions {
    pub tab_size: u32,
    pub insert_spaces: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trim_trailing_whitespace: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_final_newline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trim_final_newlines: Option<bool>,
}
impl FormattingOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(tab_size: u32, insert_spaces: bool, trim_trailing_whitespace: Option<bool>, insert_final_newline: Option<bool>, trim_final_newlines: Option<bool>) -> Self { Self { tab_size, insert_spaces, trim_trailing_whitespace, insert_final_newline, trim_final_newlines } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentFormattingParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    pub text_document: TextDocumentIdentifier,
    pub options: FormattingOptions,
}
impl DocumentFormattingParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, text_document: TextDocumentIdentifier, options: FormattingOptions) -> Self { Self { work_done_progress_params, text_document, options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    pub new_name: String,
}
impl RenameParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, new_name: String) -> Self { Self { text_document_position_params, work_done_progress_params, new_name } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl PrepareRenameParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { text_document_position_params, work_done_progress_params } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenamePlaceholder {
    pub range: Range,
    pub placeholder: String,
}
impl PrepareRenamePlaceholder {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, placeholder: String) -> Self { Self { range, placeholder } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenameDefaultBehavior {
    pub default_behavior: bool,
}
impl PrepareRenameDefaultBehavior {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(default_behavior: bool) -> Self { Self { default_behavior } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRangeParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
    pub positions: Vec<Position>,
}
impl SelectionRangeParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, positions: Vec<Position>) -> Self { Self { work_done_progress_params, partial_result_params, text_document, positions } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRange {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent: Option<Box<SelectionRange>>,
}
impl SelectionRange {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(range: Range, parent: Option<Box<SelectionRange>>) -> Self { Self { range, parent } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
}
impl SemanticTokensParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier) -> Self { Self { work_done_progress_params, partial_result_params, text_document } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensRangeParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
}
impl SemanticTokensRangeParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, range: Range) -> Self { Self { work_done_progress_params, partial_result_params, text_document, range } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensLegend {
    pub token_types: Vec<String>,
    pub token_modifiers: Vec<String>,
}
impl SemanticTokensLegend {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(token_types: Vec<String>, token_modifiers: Vec<String>) -> Self { Self { token_types, token_modifiers } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    pub legend: SemanticTokensLegend,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub full: Option<Full>,
}
impl SemanticTokensOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, legend: SemanticTokensLegend, range: Option<bool>, full: Option<Full>) -> Self { Self { work_done_progress_options, legend, range, full } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensRegistrationOptions {
    #[serde(flatten)]
    pub text_document_registration_options: TextDocumentRegistrationOptions,
    #[serde(flatten)]
    pub semantic_tokens_options: SemanticTokensOptions,
}
impl SemanticTokensRegistrationOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(text_document_registration_options: TextDocumentRegistrationOptions, semantic_tokens_options: SemanticTokensOptions) -> Self { Self { text_document_registration_options, semantic_tokens_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensFullDelta {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub delta: Option<bool>,
}
impl SemanticTokensFullDelta {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(delta: Option<bool>) -> Self { Self { delta } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
}
impl InlayHintParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, text_document: TextDocumentIdentifier, range: Range) -> Self { Self { work_done_progress_params, text_document, range } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHint {
    pub position: Position,
    pub label: Label,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<InlayHintKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub padding_left: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub padding_right: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
impl InlayHint {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(position: Position, label: Label, kind: Option<InlayHintKind>, text_edits: Option<Vec<TextEdit>>, tooltip: Option<Tooltip>, padding_left: Option<bool>, padding_right: Option<bool>, data: Option<Value>) -> Self { Self { position, label, kind, text_edits, tooltip, padding_left, padding_right, data } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintLabelPart {
    pub value: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub location: Option<Location>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
}
impl InlayHintLabelPart {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(value: String, tooltip: Option<Tooltip>, location: Option<Location>, command: Option<Command>) -> Self { Self { value, tooltip, location, command } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentDiagnosticParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub previous_result_id: Option<String>,
}
impl DocumentDiagnosticParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier, identifier: Option<String>, previous_result_id: Option<String>) -> Self { Self { work_done_progress_params, partial_result_params, text_document, identifier, previous_result_id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase", tag = "kind", rename = "full")]
pub struct FullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    pub items: Vec<Diagnostic>,
}
impl FullDocumentDiagnosticReport {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(result_id: Option<String>, items: Vec<Diagnostic>) -> Self { Self { result_id, items } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct UnchangedDocumentDiagnosticReport {
    pub result_id: String,
}
impl UnchangedDocumentDiagnosticReport {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(result_id: String) -> Self { Self { result_id } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RelatedFullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_documents: Option<HashMap<Uri, Value>>,
    #[serde(flatten)]
    pub full_document_diagnostic_report: FullDocumentDiagnosticReport,
}
impl RelatedFullDocumentDiagnosticReport {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(related_documents: Option<HashMap<Uri, Value>>, full_document_diagnostic_report: FullDocumentDiagnosticReport) -> Self { Self { related_documents, full_document_diagnostic_report } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RelatedUnchangedDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_documents: Option<HashMap<Uri, Value>>,
    #[serde(flatten)]
    pub unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport,
}
impl RelatedUnchangedDocumentDiagnosticReport {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(related_documents: Option<HashMap<Uri, Value>>, unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport) -> Self { Self { related_documents, unchanged_document_diagnostic_report } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticServerCancellationData {
    pub retrigger_request: bool,
}
impl DiagnosticServerCancellationData {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(retrigger_request: bool) -> Self { Self { retrigger_request } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ClientInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}
impl ClientInfo {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(name: String, version: Option<String>) -> Self { Self { name, version } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ServerInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}
impl ServerInfo {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(name: String, version: Option<String>) -> Self { Self { name, version } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFoldersInitializeParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_folders: Option<WorkspaceFolders>,
}
impl WorkspaceFoldersInitializeParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(workspace_folders: Option<WorkspaceFolders>) -> Self { Self { workspace_folders } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializeParams {
    #[serde(default)]
    pub process_id: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub client_info: Option<ClientInfo>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub locale: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub root_path: Option<String>,
    #[serde(default)]
    pub root_uri: Option<Uri>,
    pub capabilities: ClientCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub initialization_options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trace: Option<String>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub workspace_folders_initialize_params: WorkspaceFoldersInitializeParams,
}
impl InitializeParams {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(process_id: Option<i32>, client_info: Option<ClientInfo>, locale: Option<String>, root_path: Option<String>, root_uri: Option<Uri>, capabilities: ClientCapabilities, initialization_options: Option<Value>, trace: Option<String>, work_done_progress_params: WorkDoneProgressParams, workspace_folders_initialize_params: WorkspaceFoldersInitializeParams) -> Self { Self { process_id, client_info, locale, root_path, root_uri, capabilities, initialization_options, trace, work_done_progress_params, workspace_folders_initialize_params } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub server_info: Option<ServerInfo>,
}
impl InitializeResult {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(capabilities: ServerCapabilities, server_info: Option<ServerInfo>) -> Self { Self { capabilities, server_info } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializedParams {
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub position_encoding: Option<PositionEncodingKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_document_sync: Option<TextDocumentSync>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_provider: Option<CompletionOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover_provider: Option<HoverProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_help_provider: Option<SignatureHelpOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition_provider: Option<DefinitionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub references_provider: Option<ReferencesProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_highlight_provider: Option<DocumentHighlightProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_symbol_provider: Option<DocumentSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_provider: Option<CodeActionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_lens_provider: Option<CodeLensOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_symbol_provider: Option<WorkspaceSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_formatting_provider: Option<DocumentFormattingProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rename_provider: Option<RenameProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub selection_range_provider: Option<SelectionRangeProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens_provider: Option<SemanticTokensProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint_provider: Option<InlayHintProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic_provider: Option<DiagnosticProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<Value>,
}
impl ServerCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(position_encoding: Option<PositionEncodingKind>, text_document_sync: Option<TextDocumentSync>, completion_provider: Option<CompletionOptions>, hover_provider: Option<HoverProvider>, signature_help_provider: Option<SignatureHelpOptions>, definition_provider: Option<DefinitionProvider>, references_provider: Option<ReferencesProvider>, document_highlight_provider: Option<DocumentHighlightProvider>, document_symbol_provider: Option<DocumentSymbolProvider>, code_action_provider: Option<CodeActionProvider>, code_lens_provider: Option<CodeLensOptions>, workspace_symbol_provider: Option<WorkspaceSymbolProvider>, document_formatting_provider: Option<DocumentFormattingProvider>, rename_provider: Option<RenameProvider>, selection_range_provider: Option<SelectionRangeProvider>, semantic_tokens_provider: Option<SemanticTokensProvider>, inlay_hint_provider: Option<InlayHintProvider>, diagnostic_provider: Option<DiagnosticProvider>, workspace: Option<Value>, experimental: Option<Value>) -> Self { Self { position_encoding, text_document_sync, completion_provider, hover_provider, signature_help_provider, definition_provider, references_provider, document_highlight_provider, document_symbol_provider, code_action_provider, code_lens_provider, workspace_symbol_provider, document_formatting_provider, rename_provider, selection_range_provider, semantic_tokens_provider, inlay_hint_provider, diagnostic_provider, workspace, experimental } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentSyncOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub open_close: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change: Option<TextDocumentSyncKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save_wait_until: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub save: Option<Value>,
}
impl TextDocumentSyncOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(open_close: Option<bool>, change: Option<TextDocumentSyncKind>, will_save: Option<bool>, will_save_wait_until: Option<bool>, save: Option<Value>) -> Self { Self { open_close, change, will_save, will_save_wait_until, save } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details_support: Option<bool>,
}
impl ServerCompletionItemOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(label_details_support: Option<bool>) -> Self { Self { label_details_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub all_commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_item: Option<ServerCompletionItemOptions>,
}
impl CompletionOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, trigger_characters: Option<Vec<String>>, all_commit_characters: Option<Vec<String>>, resolve_provider: Option<bool>, completion_item: Option<ServerCompletionItemOptions>) -> Self { Self { work_done_progress_options, trigger_characters, all_commit_characters, resolve_provider, completion_item } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub retrigger_characters: Option<Vec<String>>,
}
impl SignatureHelpOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, trigger_characters: Option<Vec<String>>, retrigger_characters: Option<Vec<String>>) -> Self { Self { work_done_progress_options, trigger_characters, retrigger_characters } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_kinds: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Vec<Value>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
}
impl CodeActionOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, code_action_kinds: Option<Vec<CodeActionKind>>, documentation: Option<Vec<Value>>, resolve_provider: Option<bool>) -> Self { Self { work_done_progress_options, code_action_kinds, documentation, resolve_provider } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
}
impl CodeLensOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, resolve_provider: Option<bool>) -> Self { Self { work_done_progress_options, resolve_provider } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RenameOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub prepare_provider: Option<bool>,
}
impl RenameOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, prepare_provider: Option<bool>) -> Self { Self { work_done_progress_options, prepare_provider } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
}
impl InlayHintOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, resolve_provider: Option<bool>) -> Self { Self { work_done_progress_options, resolve_provider } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    pub inter_file_dependencies: bool,
    pub workspace_diagnostics: bool,
}
impl DiagnosticOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, identifier: Option<String>, inter_file_dependencies: bool, workspace_diagnostics: bool) -> Self { Self { work_done_progress_options, identifier, inter_file_dependencies, workspace_diagnostics } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct HoverOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl HoverOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DefinitionOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl ReferenceOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlightOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DocumentHighlightOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label: Option<String>,
}
impl DocumentSymbolOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, label: Option<String>) -> Self { Self { work_done_progress_options, label } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbolOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
}
impl WorkspaceSymbolOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions, resolve_provider: Option<bool>) -> Self { Self { work_done_progress_options, resolve_provider } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentFormattingOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DocumentFormattingOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRangeOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl SelectionRangeOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<WorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_document: Option<TextDocumentClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub notebook_document: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub window: Option<WindowClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub general: Option<GeneralClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<Value>,
}
impl ClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(workspace: Option<WorkspaceClientCapabilities>, text_document: Option<TextDocumentClientCapabilities>, notebook_document: Option<Value>, window: Option<WindowClientCapabilities>, general: Option<GeneralClientCapabilities>, experimental: Option<Value>) -> Self { Self { workspace, text_document, notebook_document, window, general, experimental } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct GeneralClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub stale_request_support: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub regular_expressions: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub markdown: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub position_encodings: Option<Vec<PositionEncodingKind>>,
}
impl GeneralClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(stale_request_support: Option<Value>, regular_expressions: Option<Value>, markdown: Option<Value>, position_encodings: Option<Vec<PositionEncodingKind>>) -> Self { Self { stale_request_support, regular_expressions, markdown, position_encodings } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WindowClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_progress: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub show_message: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub show_document: Option<Value>,
}
impl WindowClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(work_done_progress: Option<bool>, show_message: Option<Value>, show_document: Option<Value>) -> Self { Self { work_done_progress, show_message, show_document } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub apply_edit: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_edit: Option<WorkspaceEditClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_change_configuration: Option<DidChangeConfigurationClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub symbol: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub execute_command: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_folders: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub configuration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens: Option<SemanticTokensWorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_lens: Option<CodeLensWorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub file_operations: Option<FileOperationClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inline_value: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint: Option<InlayHintWorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<DiagnosticWorkspaceClientCapabilities>,
}
impl WorkspaceClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(apply_edit: Option<bool>, workspace_edit: Option<WorkspaceEditClientCapabilities>, did_change_configuration: Option<DidChangeConfigurationClientCapabilities>, did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>, symbol: Option<Value>, execute_command: Option<Value>, workspace_folders: Option<bool>, configuration: Option<bool>, semantic_tokens: Option<SemanticTokensWorkspaceClientCapabilities>, code_lens: Option<CodeLensWorkspaceClientCapabilities>, file_operations: Option<FileOperationClientCapabilities>, inline_value: Option<Value>, inlay_hint: Option<InlayHintWorkspaceClientCapabilities>, diagnostics: Option<DiagnosticWorkspaceClientCapabilities>) -> Self { Self { apply_edit, workspace_edit, did_change_configuration, did_change_watched_files, symbol, execute_command, workspace_folders, configuration, semantic_tokens, code_lens, file_operations, inline_value, inlay_hint, diagnostics } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeConfigurationClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
}
impl DidChangeConfigurationClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>) -> Self { Self { dynamic_registration } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub relative_pattern_support: Option<bool>,
}
impl DidChangeWatchedFilesClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, relative_pattern_support: Option<bool>) -> Self { Self { dynamic_registration, relative_pattern_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct ChangeAnnotationsSupportOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub groups_on_label: Option<bool>,
}
impl ChangeAnnotationsSupportOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(groups_on_label: Option<bool>) -> Self { Self { groups_on_label } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceEditClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_changes: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resource_operations: Option<Vec<ResourceOperationKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub failure_handling: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub normalizes_line_endings: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change_annotation_support: Option<ChangeAnnotationsSupportOptions>,
}
impl WorkspaceEditClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(document_changes: Option<bool>, resource_operations: Option<Vec<ResourceOperationKind>>, failure_handling: Option<Value>, normalizes_line_endings: Option<bool>, change_annotation_support: Option<ChangeAnnotationsSupportOptions>) -> Self { Self { document_changes, resource_operations, failure_handling, normalizes_line_endings, change_annotation_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl SemanticTokensWorkspaceClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl CodeLensWorkspaceClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl InlayHintWorkspaceClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl DiagnosticWorkspaceClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct FileOperationClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_create: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_create: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_delete: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_delete: Option<bool>,
}
impl FileOperationClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, did_create: Option<bool>, will_create: Option<bool>, did_rename: Option<bool>, will_rename: Option<bool>, did_delete: Option<bool>, will_delete: Option<bool>) -> Self { Self { dynamic_registration, did_create, will_create, did_rename, will_rename, did_delete, will_delete } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub synchronization: Option<TextDocumentSyncClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion: Option<CompletionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover: Option<HoverClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_help: Option<SignatureHelpClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition: Option<DefinitionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_symbol: Option<DocumentSymbolClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action: Option<CodeActionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint: Option<InlayHintClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic: Option<DiagnosticClientCapabilities>,
}
impl TextDocumentClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(synchronization: Option<TextDocumentSyncClientCapabilities>, completion: Option<CompletionClientCapabilities>, hover: Option<HoverClientCapabilities>, signature_help: Option<SignatureHelpClientCapabilities>, definition: Option<DefinitionClientCapabilities>, document_symbol: Option<DocumentSymbolClientCapabilities>, code_action: Option<CodeActionClientCapabilities>, inlay_hint: Option<InlayHintClientCapabilities>, diagnostic: Option<DiagnosticClientCapabilities>) -> Self { Self { synchronization, completion, hover, signature_help, definition, document_symbol, code_action, inlay_hint, diagnostic } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentSyncClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save_wait_until: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_save: Option<bool>,
}
impl TextDocumentSyncClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, will_save: Option<bool>, will_save_wait_until: Option<bool>, did_save: Option<bool>) -> Self { Self { dynamic_registration, will_save, will_save_wait_until, did_save } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCompletionItemResolveOptions {
    pub properties: Vec<String>,
}
impl ClientCompletionItemResolveOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(properties: Vec<String>) -> Self { Self { properties } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub snippet_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub commit_characters_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation_format: Option<Vec<MarkupKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub preselect_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_replace_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ClientCompletionItemResolveOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details_support: Option<bool>,
}
impl ClientCompletionItemOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(snippet_support: Option<bool>, commit_characters_support: Option<bool>, documentation_format: Option<Vec<MarkupKind>>, deprecated_support: Option<bool>, preselect_support: Option<bool>, insert_replace_support: Option<bool>, resolve_support: Option<ClientCompletionItemResolveOptions>, label_details_support: Option<bool>) -> Self { Self { snippet_support, commit_characters_support, documentation_format, deprecated_support, preselect_support, insert_replace_support, resolve_support, label_details_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_item: Option<ClientCompletionItemOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context_support: Option<bool>,
}
impl CompletionClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, completion_item: Option<ClientCompletionItemOptions>, context_support: Option<bool>) -> Self { Self { dynamic_registration, completion_item, context_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct HoverClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub content_format: Option<Vec<MarkupKind>>,
}
impl HoverClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, content_format: Option<Vec<MarkupKind>>) -> Self { Self { dynamic_registration, content_format } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientSignatureParameterInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_offset_support: Option<bool>,
}
impl ClientSignatureParameterInformationOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(label_offset_support: Option<bool>) -> Self { Self { label_offset_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientSignatureInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation_format: Option<Vec<MarkupKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameter_information: Option<ClientSignatureParameterInformationOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter_support: Option<bool>,
}
impl ClientSignatureInformationOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(documentation_format: Option<Vec<MarkupKind>>, parameter_information: Option<ClientSignatureParameterInformationOptions>, active_parameter_support: Option<bool>) -> Self { Self { documentation_format, parameter_information, active_parameter_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_information: Option<ClientSignatureInformationOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context_support: Option<bool>,
}
impl SignatureHelpClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, signature_information: Option<ClientSignatureInformationOptions>, context_support: Option<bool>) -> Self { Self { dynamic_registration, signature_information, context_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub link_support: Option<bool>,
}
impl DefinitionClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, link_support: Option<bool>) -> Self { Self { dynamic_registration, link_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hierarchical_document_symbol_support: Option<bool>,
}
impl DocumentSymbolClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, hierarchical_document_symbol_support: Option<bool>) -> Self { Self { dynamic_registration, hierarchical_document_symbol_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCodeActionKindOptions {
    pub value_set: Vec<CodeActionKind>,
}
impl ClientCodeActionKindOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(value_set: Vec<CodeActionKind>) -> Self { Self { value_set } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCodeActionLiteralOptions {
    pub code_action_kind: ClientCodeActionKindOptions,
}
impl ClientCodeActionLiteralOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(code_action_kind: ClientCodeActionKindOptions) -> Self { Self { code_action_kind } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCodeActionResolveOptions {
    pub properties: Vec<String>,
}
impl ClientCodeActionResolveOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(properties: Vec<String>) -> Self { Self { properties } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_literal_support: Option<ClientCodeActionLiteralOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub is_preferred_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disabled_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ClientCodeActionResolveOptions>,
}
impl CodeActionClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, code_action_literal_support: Option<ClientCodeActionLiteralOptions>, is_preferred_support: Option<bool>, disabled_support: Option<bool>, data_support: Option<bool>, resolve_support: Option<ClientCodeActionResolveOptions>) -> Self { Self { dynamic_registration, code_action_literal_support, is_preferred_support, disabled_support, data_support, resolve_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientInlayHintResolveOptions {
    pub properties: Vec<String>,
}
impl ClientInlayHintResolveOptions {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(properties: Vec<String>) -> Self { Self { properties } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ClientInlayHintResolveOptions>,
}
impl InlayHintClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, resolve_support: Option<ClientInlayHintResolveOptions>) -> Self { Self { dynamic_registration, resolve_support } }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_document_support: Option<bool>,
}
impl DiagnosticClientCapabilities {
    #[allow(clippy::too_many_arguments)]
    pub const fn new(dynamic_registration: Option<bool>, related_document_support: Option<bool>) -> Self { Self { dynamic_registration, related_document_support } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SymbolKind { File = 1, Module = 2, Namespace = 3, Package = 4, Class = 5, Method = 6, Property = 7, Field = 8, Constructor = 9, Enum = 10, Interface = 11, Function = 12, Variable = 13, Constant = 14, String = 15, Number = 16, Boolean = 17, Array = 18, Object = 19, Key = 20, Null = 21, EnumMember = 22, Struct = 23, Event = 24, Operator = 25, TypeParameter = 26 }
impl Serialize for SymbolKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for SymbolKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::File), 2 => Ok(Self::Module), 3 => Ok(Self::Namespace), 4 => Ok(Self::Package), 5 => Ok(Self::Class), 6 => Ok(Self::Method), 7 => Ok(Self::Property), 8 => Ok(Self::Field), 9 => Ok(Self::Constructor), 10 => Ok(Self::Enum), 11 => Ok(Self::Interface), 12 => Ok(Self::Function), 13 => Ok(Self::Variable), 14 => Ok(Self::Constant), 15 => Ok(Self::String), 16 => Ok(Self::Number), 17 => Ok(Self::Boolean), 18 => Ok(Self::Array), 19 => Ok(Self::Object), 20 => Ok(Self::Key), 21 => Ok(Self::Null), 22 => Ok(Self::EnumMember), 23 => Ok(Self::Struct), 24 => Ok(Self::Event), 25 => Ok(Self::Operator), 26 => Ok(Self::TypeParameter), other => Err(serde::de::Error::custom(format!("unknown SymbolKind {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionItemKind { Text = 1, Method = 2, Function = 3, Constructor = 4, Field = 5, Variable = 6, Class = 7, Interface = 8, Module = 9, Property = 10, Unit = 11, Value = 12, Enum = 13, Keyword = 14, Snippet = 15, Color = 16, File = 17, Reference = 18, Folder = 19, EnumMember = 20, Constant = 21, Struct = 22, Event = 23, Operator = 24, TypeParameter = 25 }
impl Serialize for CompletionItemKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CompletionItemKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Text), 2 => Ok(Self::Method), 3 => Ok(Self::Function), 4 => Ok(Self::Constructor), 5 => Ok(Self::Field), 6 => Ok(Self::Variable), 7 => Ok(Self::Class), 8 => Ok(Self::Interface), 9 => Ok(Self::Module), 10 => Ok(Self::Property), 11 => Ok(Self::Unit), 12 => Ok(Self::Value), 13 => Ok(Self::Enum), 14 => Ok(Self::Keyword), 15 => Ok(Self::Snippet), 16 => Ok(Self::Color), 17 => Ok(Self::File), 18 => Ok(Self::Reference), 19 => Ok(Self::Folder), 20 => Ok(Self::EnumMember), 21 => Ok(Self::Constant), 22 => Ok(Self::Struct), 23 => Ok(Self::Event), 24 => Ok(Self::Operator), 25 => Ok(Self::TypeParameter), other => Err(serde::de::Error::custom(format!("unknown CompletionItemKind {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InsertTextFormat { PlainText = 1, Snippet = 2 }
impl Serialize for InsertTextFormat { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for InsertTextFormat { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::PlainText), 2 => Ok(Self::Snippet), other => Err(serde::de::Error::custom(format!("unknown InsertTextFormat {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DiagnosticSeverity { Error = 1, Warning = 2, Information = 3, Hint = 4 }
impl Serialize for DiagnosticSeverity { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for DiagnosticSeverity { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Error), 2 => Ok(Self::Warning), 3 => Ok(Self::Information), 4 => Ok(Self::Hint), other => Err(serde::de::Error::custom(format!("unknown DiagnosticSeverity {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DiagnosticTag { Unnecessary = 1, Deprecated = 2 }
impl Serialize for DiagnosticTag { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for DiagnosticTag { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Unnecessary), 2 => Ok(Self::Deprecated), other => Err(serde::de::Error::custom(format!("unknown DiagnosticTag {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MessageType { Error = 1, Warning = 2, Info = 3, Log = 4, Debug = 5 }
impl Serialize for MessageType { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for MessageType { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Error), 2 => Ok(Self::Warning), 3 => Ok(Self::Info), 4 => Ok(Self::Log), 5 => Ok(Self::Debug), other => Err(serde::de::Error::custom(format!("unknown MessageType {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TextDocumentSyncKind { None = 0, Full = 1, Incremental = 2 }
impl Serialize for TextDocumentSyncKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for TextDocumentSyncKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 0 => Ok(Self::None), 1 => Ok(Self::Full), 2 => Ok(Self::Incremental), other => Err(serde::de::Error::custom(format!("unknown TextDocumentSyncKind {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InlayHintKind { Type = 1, Parameter = 2 }
impl Serialize for InlayHintKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for InlayHintKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Type), 2 => Ok(Self::Parameter), other => Err(serde::de::Error::custom(format!("unknown InlayHintKind {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DocumentHighlightKind { Text = 1, Read = 2, Write = 3 }
impl Serialize for DocumentHighlightKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for DocumentHighlightKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Text), 2 => Ok(Self::Read), 3 => Ok(Self::Write), other => Err(serde::de::Error::custom(format!("unknown DocumentHighlightKind {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FileChangeType { Created = 1, Changed = 2, Deleted = 3 }
impl Serialize for FileChangeType { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for FileChangeType { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Created), 2 => Ok(Self::Changed), 3 => Ok(Self::Deleted), other => Err(serde::de::Error::custom(format!("unknown FileChangeType {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionTriggerKind { Invoked = 1, TriggerCharacter = 2, TriggerForIncompleteCompletions = 3 }
impl Serialize for CompletionTriggerKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CompletionTriggerKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Invoked), 2 => Ok(Self::TriggerCharacter), 3 => Ok(Self::TriggerForIncompleteCompletions), other => Err(serde::de::Error::custom(format!("unknown CompletionTriggerKind {other}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CodeActionTriggerKind { Invoked = 1, Automatic = 2 }
impl Serialize for CodeActionTriggerKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CodeActionTriggerKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { match u32::deserialize(d)? { 1 => Ok(Self::Invoked), 2 => Ok(Self::Automatic), other => Err(serde::de::Error::custom(format!("unknown CodeActionTriggerKind {other}"))) } } }
#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
pub enum MarkupKind { PlainText, Markdown }
impl MarkupKind {
    pub fn as_str(&self) -> &str { match self { Self::PlainText => "plaintext", Self::Markdown => "markdown" } }
}
impl Serialize for MarkupKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for MarkupKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(match String::deserialize(d)?.as_str() { "plaintext" => Self::PlainText, "markdown" => Self::Markdown, other => return Err(serde::de::Error::custom(format!("unknown MarkupKind {other}"))) }) } }
#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
pub enum ResourceOperationKind { Create, Rename, Delete }
impl ResourceOperationKind {
    pub fn as_str(&self) -> &str { match self { Self::Create => "create", Self::Rename => "rename", Self::Delete => "delete" } }
}
impl Serialize for ResourceOperationKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for ResourceOperationKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(match String::deserialize(d)?.as_str() { "create" => Self::Create, "rename" => Self::Rename, "delete" => Self::Delete, other => return Err(serde::de::Error::custom(format!("unknown ResourceOperationKind {other}"))) }) } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum CodeActionKind { Empty, QuickFix, Refactor, RefactorExtract, RefactorInline, RefactorMove, RefactorRewrite, Source, SourceOrganizeImports, SourceFixAll, Notebook, Custom(std::borrow::Cow<'static, str>) }
impl CodeActionKind {
    pub const fn new(s: &'static str) -> Self { Self::Custom(std::borrow::Cow::Borrowed(s)) }
    pub fn as_str(&self) -> &str { match self { Self::Empty => "", Self::QuickFix => "quickfix", Self::Refactor => "refactor", Self::RefactorExtract => "refactor.extract", Self::RefactorInline => "refactor.inline", Self::RefactorMove => "refactor.move", Self::RefactorRewrite => "refactor.rewrite", Self::Source => "source", Self::SourceOrganizeImports => "source.organizeImports", Self::SourceFixAll => "source.fixAll", Self::Notebook => "notebook", Self::Custom(s) => s } }
}
impl From<String> for CodeActionKind { fn from(s: String) -> Self { match s.as_str() { "" => Self::Empty, "quickfix" => Self::QuickFix, "refactor" => Self::Refactor, "refactor.extract" => Self::RefactorExtract, "refactor.inline" => Self::RefactorInline, "refactor.move" => Self::RefactorMove, "refactor.rewrite" => Self::RefactorRewrite, "source" => Self::Source, "source.organizeImports" => Self::SourceOrganizeImports, "source.fixAll" => Self::SourceFixAll, "notebook" => Self::Notebook, _ => Self::Custom(s.into()) } } }
impl From<&'static str> for CodeActionKind { fn from(s: &'static str) -> Self { Self::from(s.to_owned()) } }
impl Serialize for CodeActionKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for CodeActionKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(String::deserialize(d)?.into()) } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum PositionEncodingKind { UTF8, UTF16, UTF32, Custom(std::borrow::Cow<'static, str>) }
impl PositionEncodingKind {
    pub const fn new(s: &'static str) -> Self { Self::Custom(std::borrow::Cow::Borrowed(s)) }
    pub fn as_str(&self) -> &str { match self { Self::UTF8 => "utf-8", Self::UTF16 => "utf-16", Self::UTF32 => "utf-32", Self::Custom(s) => s } }
}
impl From<String> for PositionEncodingKind { fn from(s: String) -> Self { match s.as_str() { "utf-8" => Self::UTF8, "utf-16" => Self::UTF16, "utf-32" => Self::UTF32, _ => Self::Custom(s.into()) } } }
impl From<&'static str> for PositionEncodingKind { fn from(s: &'static str) -> Self { Self::from(s.to_owned()) } }
impl Serialize for PositionEncodingKind { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for PositionEncodingKind { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(String::deserialize(d)?.into()) } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SemanticTokenTypes { Namespace, Type, Class, Enum, Interface, Struct, TypeParameter, Parameter, Variable, Property, EnumMember, Event, Function, Method, Macro, Keyword, Modifier, Comment, String, Number, Regexp, Operator, Decorator, Label, Custom(std::borrow::Cow<'static, str>) }
impl SemanticTokenTypes {
    pub const fn new(s: &'static str) -> Self { Self::Custom(std::borrow::Cow::Borrowed(s)) }
    pub fn as_str(&self) -> &str { match self { Self::Namespace => "namespace", Self::Type => "type", Self::Class => "class", Self::Enum => "enum", Self::Interface => "interface", Self::Struct => "struct", Self::TypeParameter => "typeParameter", Self::Parameter => "parameter", Self::Variable => "variable", Self::Property => "property", Self::EnumMember => "enumMember", Self::Event => "event", Self::Function => "function", Self::Method => "method", Self::Macro => "macro", Self::Keyword => "keyword", Self::Modifier => "modifier", Self::Comment => "comment", Self::String => "string", Self::Number => "number", Self::Regexp => "regexp", Self::Operator => "operator", Self::Decorator => "decorator", Self::Label => "label", Self::Custom(s) => s } }
}
impl From<String> for SemanticTokenTypes { fn from(s: String) -> Self { match s.as_str() { "namespace" => Self::Namespace, "type" => Self::Type, "class" => Self::Class, "enum" => Self::Enum, "interface" => Self::Interface, "struct" => Self::Struct, "typeParameter" => Self::TypeParameter, "parameter" => Self::Parameter, "variable" => Self::Variable, "property" => Self::Property, "enumMember" => Self::EnumMember, "event" => Self::Event, "function" => Self::Function, "method" => Self::Method, "macro" => Self::Macro, "keyword" => Self::Keyword, "modifier" => Self::Modifier, "comment" => Self::Comment, "string" => Self::String, "number" => Self::Number, "regexp" => Self::Regexp, "operator" => Self::Operator, "decorator" => Self::Decorator, "label" => Self::Label, _ => Self::Custom(s.into()) } } }
impl From<&'static str> for SemanticTokenTypes { fn from(s: &'static str) -> Self { Self::from(s.to_owned()) } }
impl Serialize for SemanticTokenTypes { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for SemanticTokenTypes { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(String::deserialize(d)?.into()) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
#[serde(untagged)]
pub enum Id { Int(i32), String(String) }
impl From<i32> for Id { fn from(it: i32) -> Self { Self::Int(it) } }
impl From<String> for Id { fn from(it: String) -> Self { Self::String(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
#[serde(untagged)]
pub enum ProgressToken { Int(i32), String(String) }
impl From<i32> for ProgressToken { fn from(it: i32) -> Self { Self::Int(it) } }
impl From<String> for ProgressToken { fn from(it: String) -> Self { Self::String(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Code { Int(i32), String(String) }
impl From<i32> for Code { fn from(it: i32) -> Self { Self::Int(it) } }
impl From<String> for Code { fn from(it: String) -> Self { Self::String(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Edit { AnnotatedTextEdit(AnnotatedTextEdit), SnippetTextEdit(SnippetTextEdit), TextEdit(TextEdit) }
impl From<AnnotatedTextEdit> for Edit { fn from(it: AnnotatedTextEdit) -> Self { Self::AnnotatedTextEdit(it) } }
impl From<SnippetTextEdit> for Edit { fn from(it: SnippetTextEdit) -> Self { Self::SnippetTextEdit(it) } }
impl From<TextEdit> for Edit { fn from(it: TextEdit) -> Self { Self::TextEdit(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentContentChangeEvent { TextDocumentContentChangePartial(TextDocumentContentChangePartial), TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument) }
impl From<TextDocumentContentChangePartial> for TextDocumentContentChangeEvent { fn from(it: TextDocumentContentChangePartial) -> Self { Self::TextDocumentContentChangePartial(it) } }
impl From<TextDocumentContentChangeWholeDocument> for TextDocumentContentChangeEvent { fn from(it: TextDocumentContentChangeWholeDocument) -> Self { Self::TextDocumentContentChangeWholeDocument(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Documentation { String(String), MarkupContent(MarkupContent) }
impl From<String> for Documentation { fn from(it: String) -> Self { Self::String(it) } }
impl From<MarkupContent> for Documentation { fn from(it: MarkupContent) -> Self { Self::MarkupContent(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Contents { MarkupContent(MarkupContent), Value(Value) }
impl From<MarkupContent> for Contents { fn from(it: MarkupContent) -> Self { Self::MarkupContent(it) } }
impl From<Value> for Contents { fn from(it: Value) -> Self { Self::Value(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Tooltip { String(String), MarkupContent(MarkupContent) }
impl From<String> for Tooltip { fn from(it: String) -> Self { Self::String(it) } }
impl From<MarkupContent> for Tooltip { fn from(it: MarkupContent) -> Self { Self::MarkupContent(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Label { String(String), InlayHintLabelPartList(Vec<InlayHintLabelPart>) }
impl From<String> for Label { fn from(it: String) -> Self { Self::String(it) } }
impl From<Vec<InlayHintLabelPart>> for Label { fn from(it: Vec<InlayHintLabelPart>) -> Self { Self::InlayHintLabelPartList(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionItemTextEdit { TextEdit(TextEdit), InsertReplaceEdit(InsertReplaceEdit) }
impl From<TextEdit> for CompletionItemTextEdit { fn from(it: TextEdit) -> Self { Self::TextEdit(it) } }
impl From<InsertReplaceEdit> for CompletionItemTextEdit { fn from(it: InsertReplaceEdit) -> Self { Self::InsertReplaceEdit(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Copy)]
#[serde(untagged)]
pub enum ActiveParameter { Int(u32), Null }
impl From<u32> for ActiveParameter { fn from(it: u32) -> Self { Self::Int(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ParameterInformationLabel { String(String), Tuple((u32,u32)) }
impl From<String> for ParameterInformationLabel { fn from(it: String) -> Self { Self::String(it) } }
impl From<(u32,u32)> for ParameterInformationLabel { fn from(it: (u32,u32)) -> Self { Self::Tuple(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Definition { Location(Location), LocationList(Vec<Location>) }
impl From<Location> for Definition { fn from(it: Location) -> Self { Self::Location(it) } }
impl From<Vec<Location>> for Definition { fn from(it: Vec<Location>) -> Self { Self::LocationList(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DefinitionResponse { DefinitionLinkList(Vec<LocationLink>), Definition(Definition) }
impl From<Vec<LocationLink>> for DefinitionResponse { fn from(it: Vec<LocationLink>) -> Self { Self::DefinitionLinkList(it) } }
impl From<Definition> for DefinitionResponse { fn from(it: Definition) -> Self { Self::Definition(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSymbolResponse { DocumentSymbolList(Vec<DocumentSymbol>), SymbolInformationList(Vec<SymbolInformation>) }
impl From<Vec<DocumentSymbol>> for DocumentSymbolResponse { fn from(it: Vec<DocumentSymbol>) -> Self { Self::DocumentSymbolList(it) } }
impl From<Vec<SymbolInformation>> for DocumentSymbolResponse { fn from(it: Vec<SymbolInformation>) -> Self { Self::SymbolInformationList(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolResponse { SymbolInformationList(Vec<SymbolInformation>), WorkspaceSymbolList(Vec<WorkspaceSymbol>) }
impl From<Vec<SymbolInformation>> for WorkspaceSymbolResponse { fn from(it: Vec<SymbolInformation>) -> Self { Self::SymbolInformationList(it) } }
impl From<Vec<WorkspaceSymbol>> for WorkspaceSymbolResponse { fn from(it: Vec<WorkspaceSymbol>) -> Self { Self::WorkspaceSymbolList(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolLocation { Location(Location), LocationUriOnly(LocationUriOnly) }
impl From<Location> for WorkspaceSymbolLocation { fn from(it: Location) -> Self { Self::Location(it) } }
impl From<LocationUriOnly> for WorkspaceSymbolLocation { fn from(it: LocationUriOnly) -> Self { Self::LocationUriOnly(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionResponse { CompletionList(CompletionList), CompletionItemList(Vec<CompletionItem>) }
impl From<CompletionList> for CompletionResponse { fn from(it: CompletionList) -> Self { Self::CompletionList(it) } }
impl From<Vec<CompletionItem>> for CompletionResponse { fn from(it: Vec<CompletionItem>) -> Self { Self::CompletionItemList(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CodeActionResponse { Command(Command), CodeAction(CodeAction) }
impl From<Command> for CodeActionResponse { fn from(it: Command) -> Self { Self::Command(it) } }
impl From<CodeAction> for CodeActionResponse { fn from(it: CodeAction) -> Self { Self::CodeAction(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum PrepareRenameResult { Range(Range), PrepareRenamePlaceholder(PrepareRenamePlaceholder), PrepareRenameDefaultBehavior(PrepareRenameDefaultBehavior) }
impl From<Range> for PrepareRenameResult { fn from(it: Range) -> Self { Self::Range(it) } }
impl From<PrepareRenamePlaceholder> for PrepareRenameResult { fn from(it: PrepareRenamePlaceholder) -> Self { Self::PrepareRenamePlaceholder(it) } }
impl From<PrepareRenameDefaultBehavior> for PrepareRenameResult { fn from(it: PrepareRenameDefaultBehavior) -> Self { Self::PrepareRenameDefaultBehavior(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceFolders { WorkspaceFolderList(Vec<WorkspaceFolder>), Null }
impl From<Vec<WorkspaceFolder>> for WorkspaceFolders { fn from(it: Vec<WorkspaceFolder>) -> Self { Self::WorkspaceFolderList(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSync { Options(TextDocumentSyncOptions), Kind(TextDocumentSyncKind) }
impl From<TextDocumentSyncOptions> for TextDocumentSync { fn from(it: TextDocumentSyncOptions) -> Self { Self::Options(it) } }
impl From<TextDocumentSyncKind> for TextDocumentSync { fn from(it: TextDocumentSyncKind) -> Self { Self::Kind(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Full { Bool(bool), SemanticTokensFullDelta(SemanticTokensFullDelta) }
impl From<bool> for Full { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<SemanticTokensFullDelta> for Full { fn from(it: SemanticTokensFullDelta) -> Self { Self::SemanticTokensFullDelta(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GlobPattern { Pattern(String), RelativePattern(RelativePattern) }
impl From<String> for GlobPattern { fn from(it: String) -> Self { Self::Pattern(it) } }
impl From<RelativePattern> for GlobPattern { fn from(it: RelativePattern) -> Self { Self::RelativePattern(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum BaseUri { Uri(Uri), WorkspaceFolder(WorkspaceFolder) }
impl From<Uri> for BaseUri { fn from(it: Uri) -> Self { Self::Uri(it) } }
impl From<WorkspaceFolder> for BaseUri { fn from(it: WorkspaceFolder) -> Self { Self::WorkspaceFolder(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentFilter { TextDocumentFilter(TextDocumentFilter), Value(Value) }
impl From<TextDocumentFilter> for DocumentFilter { fn from(it: TextDocumentFilter) -> Self { Self::TextDocumentFilter(it) } }
impl From<Value> for DocumentFilter { fn from(it: Value) -> Self { Self::Value(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SemanticTokensProvider { SemanticTokensRegistrationOptions(SemanticTokensRegistrationOptions), SemanticTokensOptions(SemanticTokensOptions) }
impl From<SemanticTokensRegistrationOptions> for SemanticTokensProvider { fn from(it: SemanticTokensRegistrationOptions) -> Self { Self::SemanticTokensRegistrationOptions(it) } }
impl From<SemanticTokensOptions> for SemanticTokensProvider { fn from(it: SemanticTokensOptions) -> Self { Self::SemanticTokensOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DiagnosticProvider { DiagnosticOptions(DiagnosticOptions) }
impl From<DiagnosticOptions> for DiagnosticProvider { fn from(it: DiagnosticOptions) -> Self { Self::DiagnosticOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverProvider { Bool(bool), HoverOptions(HoverOptions) }
impl From<bool> for HoverProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<HoverOptions> for HoverProvider { fn from(it: HoverOptions) -> Self { Self::HoverOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DefinitionProvider { Bool(bool), DefinitionOptions(DefinitionOptions) }
impl From<bool> for DefinitionProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<DefinitionOptions> for DefinitionProvider { fn from(it: DefinitionOptions) -> Self { Self::DefinitionOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ReferencesProvider { Bool(bool), ReferenceOptions(ReferenceOptions) }
impl From<bool> for ReferencesProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<ReferenceOptions> for ReferencesProvider { fn from(it: ReferenceOptions) -> Self { Self::ReferenceOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentHighlightProvider { Bool(bool), DocumentHighlightOptions(DocumentHighlightOptions) }
impl From<bool> for DocumentHighlightProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<DocumentHighlightOptions> for DocumentHighlightProvider { fn from(it: DocumentHighlightOptions) -> Self { Self::DocumentHighlightOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSymbolProvider { Bool(bool), DocumentSymbolOptions(DocumentSymbolOptions) }
impl From<bool> for DocumentSymbolProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<DocumentSymbolOptions> for DocumentSymbolProvider { fn from(it: DocumentSymbolOptions) -> Self { Self::DocumentSymbolOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolProvider { Bool(bool), WorkspaceSymbolOptions(WorkspaceSymbolOptions) }
impl From<bool> for WorkspaceSymbolProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<WorkspaceSymbolOptions> for WorkspaceSymbolProvider { fn from(it: WorkspaceSymbolOptions) -> Self { Self::WorkspaceSymbolOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentFormattingProvider { Bool(bool), DocumentFormattingOptions(DocumentFormattingOptions) }
impl From<bool> for DocumentFormattingProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<DocumentFormattingOptions> for DocumentFormattingProvider { fn from(it: DocumentFormattingOptions) -> Self { Self::DocumentFormattingOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum RenameProvider { Bool(bool), RenameOptions(RenameOptions) }
impl From<bool> for RenameProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<RenameOptions> for RenameProvider { fn from(it: RenameOptions) -> Self { Self::RenameOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SelectionRangeProvider { Bool(bool), SelectionRangeOptions(SelectionRangeOptions) }
impl From<bool> for SelectionRangeProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<SelectionRangeOptions> for SelectionRangeProvider { fn from(it: SelectionRangeOptions) -> Self { Self::SelectionRangeOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CodeActionProvider { Bool(bool), CodeActionOptions(CodeActionOptions) }
impl From<bool> for CodeActionProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<CodeActionOptions> for CodeActionProvider { fn from(it: CodeActionOptions) -> Self { Self::CodeActionOptions(it) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum InlayHintProvider { Bool(bool), InlayHintOptions(InlayHintOptions) }
impl From<bool> for InlayHintProvider { fn from(it: bool) -> Self { Self::Bool(it) } }
impl From<InlayHintOptions> for InlayHintProvider { fn from(it: InlayHintOptions) -> Self { Self::InlayHintOptions(it) } }
#[derive(Debug)]
pub enum InitializeRequest {}
impl Request for InitializeRequest { type Params = InitializeParams; type Result = InitializeResult; const METHOD: LspRequestMethod = LspRequestMethod::new("initialize"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum ShutdownRequest {}
impl Request for ShutdownRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("shutdown"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CompletionRequest {}
impl Request for CompletionRequest { type Params = CompletionParams; type Result = Option<CompletionResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/completion"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CompletionResolveRequest {}
impl Request for CompletionResolveRequest { type Params = CompletionItem; type Result = CompletionItem; const METHOD: LspRequestMethod = LspRequestMethod::new("completionItem/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum HoverRequest {}
impl Request for HoverRequest { type Params = HoverParams; type Result = Option<Hover>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/hover"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum SignatureHelpRequest {}
impl Request for SignatureHelpRequest { type Params = SignatureHelpParams; type Result = Option<SignatureHelp>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/signatureHelp"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DefinitionRequest {}
impl Request for DefinitionRequest { type Params = DefinitionParams; type Result = Option<DefinitionResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/definition"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum ReferencesRequest {}
impl Request for ReferencesRequest { type Params = ReferenceParams; type Result = Option<Vec<Location>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/references"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DocumentHighlightRequest {}
impl Request for DocumentHighlightRequest { type Params = DocumentHighlightParams; type Result = Option<Vec<DocumentHighlight>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/documentHighlight"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DocumentSymbolRequest {}
impl Request for DocumentSymbolRequest { type Params = DocumentSymbolParams; type Result = Option<DocumentSymbolResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/documentSymbol"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CodeActionRequest {}
impl Request for CodeActionRequest { type Params = CodeActionParams; type Result = Option<Vec<CodeActionResponse>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/codeAction"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CodeActionResolveRequest {}
impl Request for CodeActionResolveRequest { type Params = CodeAction; type Result = CodeAction; const METHOD: LspRequestMethod = LspRequestMethod::new("codeAction/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum WorkspaceSymbolRequest {}
impl Request for WorkspaceSymbolRequest { type Params = WorkspaceSymbolParams; type Result = Option<WorkspaceSymbolResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/symbol"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CodeLensRequest {}
impl Request for CodeLensRequest { type Params = CodeLensParams; type Result = Option<Vec<CodeLens>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/codeLens"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CodeLensResolveRequest {}
impl Request for CodeLensResolveRequest { type Params = CodeLens; type Result = CodeLens; const METHOD: LspRequestMethod = LspRequestMethod::new("codeLens/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DocumentFormattingRequest {}
impl Request for DocumentFormattingRequest { type Params = DocumentFormattingParams; type Result = Option<Vec<TextEdit>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/formatting"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum RenameRequest {}
impl Request for RenameRequest { type Params = RenameParams; type Result = Option<WorkspaceEdit>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/rename"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum PrepareRenameRequest {}
impl Request for PrepareRenameRequest { type Params = PrepareRenameParams; type Result = Option<PrepareRenameResult>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/prepareRename"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum SelectionRangeRequest {}
impl Request for SelectionRangeRequest { type Params = SelectionRangeParams; type Result = Option<Vec<SelectionRange>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/selectionRange"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum SemanticTokensRequest {}
impl Request for SemanticTokensRequest { type Params = SemanticTokensParams; type Result = Option<SemanticTokens>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/semanticTokens/full"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum SemanticTokensRangeRequest {}
impl Request for SemanticTokensRangeRequest { type Params = SemanticTokensRangeParams; type Result = Option<SemanticTokens>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/semanticTokens/range"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum InlayHintRequest {}
impl Request for InlayHintRequest { type Params = InlayHintParams; type Result = Option<Vec<InlayHint>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/inlayHint"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum InlayHintResolveRequest {}
impl Request for InlayHintResolveRequest { type Params = InlayHint; type Result = InlayHint; const METHOD: LspRequestMethod = LspRequestMethod::new("inlayHint/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DocumentDiagnosticRequest {}
impl Request for DocumentDiagnosticRequest { type Params = DocumentDiagnosticParams; type Result = DocumentDiagnosticReport; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/diagnostic"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum ShowMessageRequest {}
impl Request for ShowMessageRequest { type Params = ShowMessageRequestParams; type Result = Option<MessageActionItem>; const METHOD: LspRequestMethod = LspRequestMethod::new("window/showMessageRequest"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum WorkDoneProgressCreateRequest {}
impl Request for WorkDoneProgressCreateRequest { type Params = WorkDoneProgressCreateParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("window/workDoneProgress/create"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum RegistrationRequest {}
impl Request for RegistrationRequest { type Params = RegistrationParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("client/registerCapability"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum ConfigurationRequest {}
impl Request for ConfigurationRequest { type Params = ConfigurationParams; type Result = Vec<Value>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/configuration"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum SemanticTokensRefreshRequest {}
impl Request for SemanticTokensRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/semanticTokens/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum CodeLensRefreshRequest {}
impl Request for CodeLensRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/codeLens/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum InlayHintRefreshRequest {}
impl Request for InlayHintRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/inlayHint/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum DiagnosticRefreshRequest {}
impl Request for DiagnosticRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/diagnostic/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum InitializedNotification {}
impl Notification for InitializedNotification { type Params = InitializedParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("initialized"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum ExitNotification {}
impl Notification for ExitNotification { type Params = (); const METHOD: LspNotificationMethod = LspNotificationMethod::new("exit"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum CancelNotification {}
impl Notification for CancelNotification { type Params = CancelParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("$/cancelRequest"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; }
#[derive(Debug)]
pub enum ProgressNotification {}
impl Notification for ProgressNotification { type Params = ProgressParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("$/progress"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; }
#[derive(Debug)]
pub enum ShowMessageNotification {}
impl Notification for ShowMessageNotification { type Params = ShowMessageParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/showMessage"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum LogMessageNotification {}
impl Notification for LogMessageNotification { type Params = LogMessageParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/logMessage"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)]
pub enum WorkDoneProgressCancelNotification {}
impl Notification for WorkDoneProgressCancelNotification { type Params = WorkDoneProgressCancelParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/workDoneProgress/cancel"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidOpenTextDocumentNotification {}
impl Notification for DidOpenTextDocumentNotification { type Params = DidOpenTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didOpen"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidChangeTextDocumentNotification {}
impl Notification for DidChangeTextDocumentNotification { type Params = DidChangeTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didChange"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidCloseTextDocumentNotification {}
impl Notification for DidCloseTextDocumentNotification { type Params = DidCloseTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didClose"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidSaveTextDocumentNotification {}
impl Notification for DidSaveTextDocumentNotification { type Params = DidSaveTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didSave"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidChangeConfigurationNotification {}
impl Notification for DidChangeConfigurationNotification { type Params = DidChangeConfigurationParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeConfiguration"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidChangeWorkspaceFoldersNotification {}
impl Notification for DidChangeWorkspaceFoldersNotification { type Params = DidChangeWorkspaceFoldersParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeWorkspaceFolders"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)]
pub enum DidChangeWatchedFilesNotification {}
impl Notification for DidChangeWatchedFilesNotification { type Params = DidChangeWatchedFilesParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeWatchedFiles"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
