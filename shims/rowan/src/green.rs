use crate::{NodeOrToken, TextRange, TextSize};
use rustc_hash::FxHashMap;
use std::{
    borrow::{Borrow, Cow},
    fmt, iter::FusedIterator,
    ops::{self, Bound, RangeBounds},
    slice,
    sync::Arc,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SyntaxKind(pub u16);

// ---------------------------------------------------------------- tokens
#[derive(PartialEq, Eq, Hash)]
struct TokenInner {
    kind: SyntaxKind,
    text: Box<str>,
}

/// Borrowed view of a green token.
#[derive(PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct GreenTokenData(Arc<TokenInner>);

#[derive(PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct GreenToken(GreenTokenData);

impl Clone for GreenToken {
    fn clone(&self) -> Self {
        GreenToken(GreenTokenData(self.0 .0.clone()))
    }
}
impl ToOwned for GreenTokenData {
    type Owned = GreenToken;
    fn to_owned(&self) -> GreenToken {
        GreenToken(GreenTokenData(self.0.clone()))
    }
}
impl Borrow<GreenTokenData> for GreenToken {
    fn borrow(&self) -> &GreenTokenData {
        &self.0
    }
}
impl ops::Deref for GreenToken {
    type Target = GreenTokenData;
    fn deref(&self) -> &GreenTokenData {
        &self.0
    }
}
impl GreenToken {
    pub fn new(kind: SyntaxKind, text: &str) -> GreenToken {
        GreenToken(GreenTokenData(Arc::new(TokenInner { kind, text: text.into() })))
    }
}
impl GreenTokenData {
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn text_len(&self) -> TextSize {
        TextSize::of(self.text())
    }
    pub(crate) fn addr(&self) -> usize {
        Arc::as_ptr(&self.0) as *const u8 as usize
    }
}
impl fmt::Debug for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("GreenToken").field("kind", &self.kind()).field("text", &self.text()).finish()
    }
}
impl fmt::Debug for GreenToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl fmt::Display for GreenToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}

// ---------------------------------------------------------------- nodes
#[derive(Clone)]
pub(crate) struct GreenChild {
    pub(crate) rel_offset: TextSize,
    pub(crate) element: NodeOrToken<GreenNode, GreenToken>,
}
impl GreenChild {
    pub(crate) fn rel_range(&self) -> TextRange {
        TextRange::at(self.rel_offset, self.text_len())
    }
    pub(crate) fn text_len(&self) -> TextSize {
        match &self.element {
            NodeOrToken::Node(n) => n.text_len(),
            NodeOrToken::Token(t) => t.text_len(),
        }
    }
}

struct NodeInner {
    kind: SyntaxKind,
    text_len: TextSize,
    children: Vec<GreenChild>,
}

#[repr(transparent)]
pub struct GreenNodeData(Arc<NodeInner>);

#[repr(transparent)]
pub struct GreenNode(GreenNodeData);

impl Clone for GreenNode {
    fn clone(&self) -> Self {
        GreenNode(GreenNodeData(self.0 .0.clone()))
    }
}
impl ToOwned for GreenNodeData {
    type Owned = GreenNode;
    fn to_owned(&self) -> GreenNode {
        GreenNode(GreenNodeData(self.0.clone()))
    }
}
impl Borrow<GreenNodeData> for GreenNode {
    fn borrow(&self) -> &GreenNodeData {
        &self.0
    }
}
impl ops::Deref for GreenNode {
    type Target = GreenNodeData;
    fn deref(&self) -> &GreenNodeData {
        &self.0
    }
}
impl From<Cow<'_, GreenNodeData>> for GreenNode {
    fn from(cow: Cow<'_, GreenNodeData>) -> Self {
        cow.into_owned()
    }
}
impl From<&'_ GreenNodeData> for GreenNode {
    fn from(borrowed: &'_ GreenNodeData) -> Self {
        borrowed.to_owned()
    }
}
impl PartialEq for GreenNodeData {
    fn eq(&self, other: &Self) -> bool {
        if Arc::ptr_eq(&self.0, &other.0) {
            return true;
        }
        // explicit stack: trees may be deep
        let mut stack: Vec<(GreenNode, GreenNode)> = vec![(self.to_owned(), other.to_owned())];
        while let Some((a, b)) = stack.pop() {
            if Arc::ptr_eq(&a.0 .0, &b.0 .0) {
                continue;
            }
            let (a, b) = (&a.0 .0, &b.0 .0);
            if a.kind != b.kind || a.text_len != b.text_len || a.children.len() != b.children.len() {
                return false;
            }
            for (x, y) in a.children.iter().zip(&b.children) {
                match (&x.element, &y.element) {
                    (NodeOrToken::Node(x), NodeOrToken::Node(y)) => stack.push((x.clone(), y.clone())),
                    (NodeOrToken::Token(x), NodeOrToken::Token(y)) => {
                        if x != y {
                            return false;
                        }
                    }
                    _ => return false,
                }
            }
        }
        true
    }
}
impl Eq for GreenNodeData {}
impl PartialEq for GreenNode {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}
impl Eq for GreenNode {}
impl std::hash::Hash for GreenNodeData {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.kind().hash(state);
        self.text_len().hash(state);
        for c in &self.0.children {
            match &c.element {
                NodeOrToken::Node(n) => n.0.hash(state),
                NodeOrToken::Token(t) => t.hash(state),
            }
        }
    }
}
impl std::hash::Hash for GreenNode {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
impl fmt::Debug for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("GreenNode")
            .field("kind", &self.kind())
            .field("text_len", &self.text_len())
            .field("n_children", &self.children().len())
            .finish()
    }
}
impl fmt::Debug for GreenNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in &self.0.children {
            match &c.element {
                NodeOrToken::Node(n) => fmt::Display::fmt(&n.0, f)?,
                NodeOrToken::Token(t) => fmt::Display::fmt(&t.0, f)?,
            }
        }
        Ok(())
    }
}
impl fmt::Display for GreenNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}

impl GreenNodeData {
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind
    }
    pub fn text_len(&self) -> TextSize {
        self.0.text_len
    }
    pub fn children(&self) -> Children<'_> {
        Children { raw: self.0.children.iter() }
    }
    pub(crate) fn slice(&self) -> &[GreenChild] {
        &self.0.children
    }
    pub(crate) fn addr(&self) -> usize {
        Arc::as_ptr(&self.0) as *const u8 as usize
    }
    pub(crate) fn child_at_range(&self, rel_range: TextRange) -> Option<(usize, &GreenChild)> {
        let idx = self
            .slice()
            .binary_search_by(|it| it.rel_range().ordering(rel_range))
            // XXX: this handles empty ranges
            .unwrap_or_else(|it| it.saturating_sub(1));
        let child = self.slice().get(idx).filter(|it| it.rel_range().contains_range(rel_range))?;
        Some((idx, child))
    }
    #[must_use]
    pub fn replace_child(&self, index: usize, new_child: NodeOrToken<GreenNode, GreenToken>) -> GreenNode {
        let mut replacement = Some(new_child);
        let children = self.slice().iter().enumerate().map(|(i, child)| {
            if i == index {
                replacement.take().unwrap()
            } else {
                child.element.clone()
            }
        });
        GreenNode::new(self.kind(), children.collect::<Vec<_>>())
    }
    #[must_use]
    pub fn insert_child(&self, index: usize, new_child: NodeOrToken<GreenNode, GreenToken>) -> GreenNode {
        self.splice_children(index..index, Some(new_child))
    }
    #[must_use]
    pub fn remove_child(&self, index: usize) -> GreenNode {
        self.splice_children(index..=index, None)
    }
    #[must_use]
    pub fn splice_children<R, I>(&self, range: R, replace_with: I) -> GreenNode
    where
        R: RangeBounds<usize>,
        I: IntoIterator<Item = NodeOrToken<GreenNode, GreenToken>>,
    {
        let mut children: Vec<_> = self.slice().iter().map(|it| it.element.clone()).collect();
        let start = match range.start_bound() {
            Bound::Included(&s) => s,
            Bound::Excluded(&s) => s + 1,
            Bound::Unbounded => 0,
        };
        let end = match range.end_bound() {
            Bound::Included(&e) => e + 1,
            Bound::Excluded(&e) => e,
            Bound::Unbounded => children.len(),
        };
        children.splice(start..end, replace_with);
        GreenNode::new(self.kind(), children)
    }
}

impl GreenNode {
    pub fn new<I>(kind: SyntaxKind, children: I) -> GreenNode
    where
        I: IntoIterator<Item = NodeOrToken<GreenNode, GreenToken>>,
    {
        let mut text_len = TextSize::new(0);
        let children = children
            .into_iter()
            .map(|element| {
                let child = GreenChild { rel_offset: text_len, element };
                text_len += child.text_len();
                child
            })
            .collect::<Vec<_>>();
        GreenNode(GreenNodeData(Arc::new(NodeInner { kind, text_len, children })))
    }
}

impl Drop for NodeInner {
    fn drop(&mut self) {
        // flatten drops of deep trees
        let mut stack: Vec<GreenChild> = Vec::new();
        if self.children.iter().any(|c| matches!(&c.element, NodeOrToken::Node(n) if Arc::strong_count(&n.0 .0) == 1)) {
            stack.append(&mut self.children);
        }
        while let Some(c) = stack.pop() {
            if let NodeOrToken::Node(n) = c.element {
                let GreenNode(GreenNodeData(arc)) = n;
                if let Ok(mut inner) = Arc::try_unwrap(arc) {
                    stack.append(&mut inner.children);
                }
            }
        }
    }
}

#[derive(Debug, Clone)]
pub struct Children<'a> {
    raw: slice::Iter<'a, GreenChild>,
}
impl fmt::Debug for GreenChild {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.element, f)
    }
}
fn as_data(c: &GreenChild) -> NodeOrToken<&GreenNodeData, &GreenTokenData> {
    match &c.element {
        NodeOrToken::Node(n) => NodeOrToken::Node(&n.0),
        NodeOrToken::Token(t) => NodeOrToken::Token(&t.0),
    }
}
impl<'a> Iterator for Children<'a> {
    type Item = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(as_data)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.raw.size_hint()
    }
}
impl DoubleEndedIterator for Children<'_> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.raw.next_back().map(as_data)
    }
}
impl ExactSizeIterator for Children<'_> {}
impl FusedIterator for Children<'_> {}

impl From<GreenNode> for NodeOrToken<GreenNode, GreenToken> {
    fn from(n: GreenNode) -> Self {
        NodeOrToken::Node(n)
    }
}
impl From<GreenToken> for NodeOrToken<GreenNode, GreenToken> {
    fn from(t: GreenToken) -> Self {
        NodeOrToken::Token(t)
    }
}
impl NodeOrToken<GreenNode, GreenToken> {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn text_len(&self) -> TextSize {
        match self {
            NodeOrToken::Node(n) => n.text_len(),
            NodeOrToken::Token(t) => t.text_len(),
        }
    }
}
impl NodeOrToken<&GreenNodeData, &GreenTokenData> {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn text_len(&self) -> TextSize {
        match self {
            NodeOrToken::Node(n) => n.text_len(),
            NodeOrToken::Token(t) => t.text_len(),
        }
    }
    pub fn to_owned(&self) -> NodeOrToken<GreenNode, GreenToken> {
        match self {
            NodeOrToken::Node(n) => NodeOrToken::Node((*n).to_owned()),
            NodeOrToken::Token(t) => NodeOrToken::Token((*t).to_owned()),
        }
    }
}

// ---------------------------------------------------------------- builder
/// Interns tokens and small nodes (at most three children, all of them interned).
#[derive(Default, Debug)]
pub struct NodeCache {
    nodes: FxHashMap<(SyntaxKind, Vec<usize>), GreenNode>,
    tokens: FxHashMap<(SyntaxKind, Box<str>), GreenToken>,
}
type CachedElement = (bool, NodeOrToken<GreenNode, GreenToken>);
impl NodeCache {
    fn node(&mut self, kind: SyntaxKind, children: &mut Vec<CachedElement>, first_child: usize) -> (bool, GreenNode) {
        let cacheable = children.len() - first_child <= 3 && children[first_child..].iter().all(|(c, _)| *c);
        if !cacheable {
            let node = GreenNode::new(kind, children.drain(first_child..).map(|(_, it)| it).collect::<Vec<_>>());
            return (false, node);
        }
        let key: Vec<usize> = children[first_child..]
            .iter()
            .map(|(_, it)| match it {
                NodeOrToken::Node(n) => n.addr(),
                NodeOrToken::Token(t) => t.addr(),
            })
            .collect();
        if let Some(node) = self.nodes.get(&(kind, key.clone())) {
            children.truncate(first_child);
            return (true, node.clone());
        }
        let node = GreenNode::new(kind, children.drain(first_child..).map(|(_, it)| it).collect::<Vec<_>>());
        self.nodes.insert((kind, key), node.clone());
        (true, node)
    }
    fn token(&mut self, kind: SyntaxKind, text: &str) -> GreenToken {
        self.tokens.entry((kind, text.into())).or_insert_with(|| GreenToken::new(kind, text)).clone()
    }
}

#[derive(Debug)]
enum MaybeOwned<'a, T> {
    Owned(T),
    Borrowed(&'a mut T),
}
impl<T> ops::Deref for MaybeOwned<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        match self {
            MaybeOwned::Owned(it) => it,
            MaybeOwned::Borrowed(it) => it,
        }
    }
}
impl<T> ops::DerefMut for MaybeOwned<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        match self {
            MaybeOwned::Owned(it) => it,
            MaybeOwned::Borrowed(it) => it,
        }
    }
}
impl<T: Default> Default for MaybeOwned<'_, T> {
    fn default() -> Self {
        MaybeOwned::Owned(T::default())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Checkpoint(usize);

#[derive(Default, Debug)]
pub struct GreenNodeBuilder<'cache> {
    cache: MaybeOwned<'cache, NodeCache>,
    parents: Vec<(SyntaxKind, usize)>,
    children: Vec<CachedElement>,
}

impl GreenNodeBuilder<'_> {
    pub fn new() -> GreenNodeBuilder<'static> {
        GreenNodeBuilder::default()
    }
    pub fn with_cache(cache: &mut NodeCache) -> GreenNodeBuilder<'_> {
        GreenNodeBuilder { cache: MaybeOwned::Borrowed(cache), parents: Vec::new(), children: Vec::new() }
    }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) {
        let token = self.cache.token(kind, text);
        self.children.push((true, token.into()));
    }
    pub fn start_node(&mut self, kind: SyntaxKind) {
        let len = self.children.len();
        self.parents.push((kind, len));
    }
    pub fn finish_node(&mut self) {
        let (kind, first_child) = self.parents.pop().unwrap();
        let (cached, node) = self.cache.node(kind, &mut self.children, first_child);
        self.children.push((cached, node.into()));
    }
    pub fn checkpoint(&self) -> Checkpoint {
        Checkpoint(self.children.len())
    }
    pub fn start_node_at(&mut self, checkpoint: Checkpoint, kind: SyntaxKind) {
        let Checkpoint(checkpoint) = checkpoint;
        assert!(checkpoint <= self.children.len(), "checkpoint no longer valid, was finish_node called early?");
        if let Some(&(_, first_child)) = self.parents.last() {
            assert!(checkpoint >= first_child, "checkpoint no longer valid, was an unmatched start_node_at called?");
        }
        self.parents.push((kind, checkpoint));
    }
    pub fn finish(mut self) -> GreenNode {
        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap().1 {
            NodeOrToken::Node(node) => node,
            NodeOrToken::Token(_) => panic!(),
        }
    }
}
