//! Message types of the Language Server Protocol, as far as /repo names them; the crate it depends
//! on is generated from the protocol's meta model and is not in this sandbox. The tables are in
//! gen.py; here is what they do not cover.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub use serde_json::Value;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

mod gen;
pub use gen::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MessageDirection {
    ClientToServer,
    ServerToClient,
    Both,
}

macro_rules! method {
    ($name:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name(&'static str);
        impl $name {
            pub const fn new(s: &'static str) -> Self {
                Self(s)
            }
            pub const fn as_str(&self) -> &'static str {
                self.0
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(self.0)
            }
        }
        impl From<$name> for String {
            fn from(m: $name) -> String {
                m.0.to_owned()
            }
        }
        impl PartialEq<str> for $name {
            fn eq(&self, other: &str) -> bool {
                self.0 == other
            }
        }
        impl PartialEq<$name> for String {
            fn eq(&self, other: &$name) -> bool {
                self == other.0
            }
        }
    };
}
method!(LspRequestMethod);
method!(LspNotificationMethod);

pub trait Request {
    type Params: serde::de::DeserializeOwned + Serialize;
    type Result: serde::de::DeserializeOwned + Serialize;
    const METHOD: LspRequestMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

pub trait Notification {
    type Params: serde::de::DeserializeOwned + Serialize;
    const METHOD: LspNotificationMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Uri(url::Url);

impl Uri {
    pub fn parse(s: &str) -> Result<Uri, url::ParseError> {
        url::Url::parse(s).map(Uri)
    }
    pub fn from_file_path(p: impl AsRef<Path>) -> Result<Uri, ()> {
        url::Url::from_file_path(p).map(Uri)
    }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> {
        self.0.to_file_path()
    }
    pub fn as_str(&self) -> &str {
        self.0.as_str()
    }
}
impl std::ops::Deref for Uri {
    type Target = url::Url;
    fn deref(&self) -> &url::Url {
        &self.0
    }
}
impl std::fmt::Display for Uri {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_str())
    }
}
impl From<Uri> for String {
    fn from(u: Uri) -> String {
        u.0.into()
    }
}
impl std::str::FromStr for Uri {
    type Err = url::ParseError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::parse(s)
    }
}
impl Serialize for Uri {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
impl<'de> Deserialize<'de> for Uri {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Uri::parse(&s).map_err(|e| serde::de::Error::custom(format!("{e}: {s:?}")))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct WatchKind(pub u32);

impl Default for MarkupKind {
    fn default() -> Self {
        MarkupKind::PlainText
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(tag = "kind", rename_all = "lowercase")]
pub enum ResourceOperation {
    Create(CreateFile),
    Rename(RenameFile),
    Delete(DeleteFile),
}

/// `TextDocumentEdit`, or a file operation told apart by its `kind`.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DocumentChange {
    TextDocumentEdit(TextDocumentEdit),
    CreateFile(CreateFile),
    RenameFile(RenameFile),
    DeleteFile(DeleteFile),
}
impl Serialize for DocumentChange {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.clone() {
            DocumentChange::TextDocumentEdit(it) => it.serialize(s),
            DocumentChange::CreateFile(it) => ResourceOperation::Create(it).serialize(s),
            DocumentChange::RenameFile(it) => ResourceOperation::Rename(it).serialize(s),
            DocumentChange::DeleteFile(it) => ResourceOperation::Delete(it).serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for DocumentChange {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        let e = serde::de::Error::custom;
        if v.get("kind").is_some() {
            return Ok(match serde_json::from_value::<ResourceOperation>(v).map_err(e)? {
                ResourceOperation::Create(it) => DocumentChange::CreateFile(it),
                ResourceOperation::Rename(it) => DocumentChange::RenameFile(it),
                ResourceOperation::Delete(it) => DocumentChange::DeleteFile(it),
            });
        }
        Ok(DocumentChange::TextDocumentEdit(serde_json::from_value(v).map_err(e)?))
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(tag = "kind", rename_all = "lowercase")]
enum DiagnosticReportRepr {
    Full(RelatedFullDocumentDiagnosticReport),
    Unchanged(RelatedUnchangedDocumentDiagnosticReport),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(from = "DiagnosticReportRepr", into = "DiagnosticReportRepr")]
pub enum DocumentDiagnosticReport {
    RelatedFullDocumentDiagnosticReport(RelatedFullDocumentDiagnosticReport),
    RelatedUnchangedDocumentDiagnosticReport(RelatedUnchangedDocumentDiagnosticReport),
}
impl From<DiagnosticReportRepr> for DocumentDiagnosticReport {
    fn from(r: DiagnosticReportRepr) -> Self {
        match r {
            DiagnosticReportRepr::Full(it) => Self::RelatedFullDocumentDiagnosticReport(it),
            DiagnosticReportRepr::Unchanged(it) => Self::RelatedUnchangedDocumentDiagnosticReport(it),
        }
    }
}
impl From<DocumentDiagnosticReport> for DiagnosticReportRepr {
    fn from(r: DocumentDiagnosticReport) -> Self {
        match r {
            DocumentDiagnosticReport::RelatedFullDocumentDiagnosticReport(it) => Self::Full(it),
            DocumentDiagnosticReport::RelatedUnchangedDocumentDiagnosticReport(it) => Self::Unchanged(it),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers_bitset: u32,
}

fn tokens_ser<S: Serializer>(tokens: &[SemanticToken], s: S) -> Result<S::Ok, S::Error> {
    s.collect_seq(
        tokens
            .iter()
            .flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]),
    )
}
fn tokens_de<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<SemanticToken>, D::Error> {
    let data = Vec::<u32>::deserialize(d)?;
    if data.len() % 5 != 0 {
        return Err(serde::de::Error::custom("Length is not divisible by 5"));
    }
    Ok(data
        .chunks(5)
        .map(|c| SemanticToken {
            delta_line: c[0],
            delta_start: c[1],
            length: c[2],
            token_type: c[3],
            token_modifiers_bitset: c[4],
        })
        .collect())
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokens {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    #[serde(serialize_with = "tokens_ser", deserialize_with = "tokens_de")]
    pub data: Vec<SemanticToken>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SemanticTokensEdit {
    pub start: u32,
    pub delete_count: u32,
    pub data: Option<Vec<SemanticToken>>,
}
