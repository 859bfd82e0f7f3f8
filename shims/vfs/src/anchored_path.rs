use crate::FileId;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct AnchoredPathBuf {
    pub anchor: FileId,
    pub path: String,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct AnchoredPath<'a> {
    pub anchor: FileId,
    pub path: &'a str,
}

impl AnchoredPath<'_> {
    pub fn to_owned(&self) -> AnchoredPathBuf {
        AnchoredPathBuf { anchor: self.anchor, path: self.path.to_owned() }
    }
}
