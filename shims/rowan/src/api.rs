//! Language-typed red tree.
use crate::{cursor, green::GreenTokenData, Direction, GreenNode, GreenNodeData, GreenToken, NodeOrToken,
    SyntaxKind, SyntaxText, TextRange, TextSize, TokenAtOffset, WalkEvent};
use std::{borrow::Cow, fmt, hash::Hash, iter, marker::PhantomData, ops::Range};

pub trait Language: Sized + Copy + fmt::Debug + Eq + Ord + Hash {
    type Kind: Sized + Copy + fmt::Debug + Eq + Ord + Hash;
    fn kind_from_raw(raw: SyntaxKind) -> Self::Kind;
    fn kind_to_raw(kind: Self::Kind) -> SyntaxKind;
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxNode<L: Language> {
    raw: cursor::SyntaxNode,
    _p: PhantomData<L>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxToken<L: Language> {
    raw: cursor::SyntaxToken,
    _p: PhantomData<L>,
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

impl<L: Language> From<cursor::SyntaxNode> for SyntaxNode<L> {
    fn from(raw: cursor::SyntaxNode) -> Self {
        SyntaxNode { raw, _p: PhantomData }
    }
}
impl<L: Language> From<SyntaxNode<L>> for cursor::SyntaxNode {
    fn from(n: SyntaxNode<L>) -> Self {
        n.raw
    }
}
impl<L: Language> From<cursor::SyntaxToken> for SyntaxToken<L> {
    fn from(raw: cursor::SyntaxToken) -> Self {
        SyntaxToken { raw, _p: PhantomData }
    }
}
impl<L: Language> From<SyntaxToken<L>> for cursor::SyntaxToken {
    fn from(n: SyntaxToken<L>) -> Self {
        n.raw
    }
}
fn el<L: Language>(raw: cursor::SyntaxElement) -> SyntaxElement<L> {
    match raw {
        NodeOrToken::Node(it) => NodeOrToken::Node(it.into()),
        NodeOrToken::Token(it) => NodeOrToken::Token(it.into()),
    }
}
fn unel<L: Language>(it: SyntaxElement<L>) -> cursor::SyntaxElement {
    match it {
        NodeOrToken::Node(it) => NodeOrToken::Node(it.raw),
        NodeOrToken::Token(it) => NodeOrToken::Token(it.raw),
    }
}
impl<L: Language> From<cursor::SyntaxElement> for SyntaxElement<L> {
    fn from(raw: cursor::SyntaxElement) -> Self {
        el(raw)
    }
}
impl<L: Language> From<SyntaxElement<L>> for cursor::SyntaxElement {
    fn from(e: SyntaxElement<L>) -> Self {
        unel(e)
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(node: SyntaxNode<L>) -> SyntaxElement<L> {
        NodeOrToken::Node(node)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(token: SyntaxToken<L>) -> SyntaxElement<L> {
        NodeOrToken::Token(token)
    }
}

impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut level = 0;
            for event in self.preorder_with_tokens() {
                match event {
                    WalkEvent::Enter(element) => {
                        for _ in 0..level {
                            write!(f, "  ")?;
                        }
                        match element {
                            NodeOrToken::Node(node) => writeln!(f, "{:?}", node)?,
                            NodeOrToken::Token(token) => writeln!(f, "{:?}", token)?,
                        }
                        level += 1;
                    }
                    WalkEvent::Leave(_) => level -= 1,
                }
            }
            assert_eq!(level, 0);
            Ok(())
        } else {
            write!(f, "{:?}@{:?}", self.kind(), self.text_range())
        }
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.raw, f)
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?}", self.kind(), self.text_range())?;
        if self.text().len() < 25 {
            return write!(f, " {:?}", self.text());
        }
        let text = self.text();
        for idx in 21..25 {
            if text.is_char_boundary(idx) {
                let text = format!("{} ...", &text[..idx]);
                return write!(f, " {:?}", text);
            }
        }
        unreachable!()
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.raw, f)
    }
}

impl<L: Language> SyntaxNode<L> {
    pub fn new_root(green: GreenNode) -> SyntaxNode<L> {
        cursor::SyntaxNode::new_root(green).into()
    }
    pub fn new_root_mut(green: GreenNode) -> SyntaxNode<L> {
        cursor::SyntaxNode::new_root_mut(green).into()
    }
    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        self.raw.replace_with(replacement)
    }
    pub fn kind(&self) -> L::Kind {
        L::kind_from_raw(self.raw.kind())
    }
    pub fn text_range(&self) -> TextRange {
        self.raw.text_range()
    }
    pub fn index(&self) -> usize {
        self.raw.index()
    }
    pub fn text(&self) -> SyntaxText {
        self.raw.text()
    }
    pub fn green(&self) -> Cow<'_, GreenNodeData> {
        self.raw.green()
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.raw.parent().map(Self::from)
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let raw = self.raw.clone();
        iter::successors(Some(raw), cursor::SyntaxNode::parent).map(SyntaxNode::from)
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        SyntaxNodeChildren { raw: self.raw.children(), _p: PhantomData }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren { raw: self.raw.children_with_tokens(), _p: PhantomData }
    }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> {
        self.raw.first_child().map(Self::from)
    }
    pub fn first_child_by_kind(&self, matcher: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> {
        self.children().find(|it| matcher(it.kind()))
    }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> {
        self.raw.last_child().map(Self::from)
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.first_child_or_token().map(el)
    }
    pub fn first_child_or_token_by_kind(&self, matcher: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().find(|it| matcher(it.kind()))
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.last_child_or_token().map(el)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> {
        self.raw.next_sibling().map(Self::from)
    }
    pub fn next_sibling_by_kind(&self, matcher: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> {
        self.siblings(Direction::Next).skip(1).find(|it| matcher(it.kind()))
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> {
        self.raw.prev_sibling().map(Self::from)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.next_sibling_or_token().map(el)
    }
    pub fn next_sibling_or_token_by_kind(&self, matcher: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> {
        self.siblings_with_tokens(Direction::Next).skip(1).find(|it| matcher(it.kind()))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.prev_sibling_or_token().map(el)
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.first_token().map(SyntaxToken::from)
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.last_token().map(SyntaxToken::from)
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        iter::successors(Some(self.raw.clone()), move |node| match direction {
            Direction::Next => node.next_sibling(),
            Direction::Prev => node.prev_sibling(),
        })
        .map(SyntaxNode::from)
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: cursor::SyntaxElement = self.raw.clone().into();
        iter::successors(Some(me), move |e| match direction {
            Direction::Next => e.next_sibling_or_token(),
            Direction::Prev => e.prev_sibling_or_token(),
        })
        .map(el)
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.raw
            .preorder()
            .filter_map(|event| match event {
                WalkEvent::Enter(node) => Some(node),
                WalkEvent::Leave(_) => None,
            })
            .map(SyntaxNode::from)
    }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.raw
            .preorder_with_tokens()
            .filter_map(|event| match event {
                WalkEvent::Enter(it) => Some(it),
                WalkEvent::Leave(_) => None,
            })
            .map(el)
    }
    pub fn preorder(&self) -> Preorder<L> {
        Preorder { raw: self.raw.preorder(), _p: PhantomData }
    }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens<L> {
        PreorderWithTokens { raw: self.raw.preorder_with_tokens(), _p: PhantomData }
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        self.raw.token_at_offset(offset).map(SyntaxToken::from)
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        el(self.raw.covering_element(range))
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        self.raw.child_or_token_at_range(range).map(el)
    }
    pub fn clone_subtree(&self) -> SyntaxNode<L> {
        SyntaxNode::from(self.raw.clone_subtree())
    }
    pub fn clone_for_update(&self) -> SyntaxNode<L> {
        SyntaxNode::from(self.raw.clone_for_update())
    }
    pub fn is_mutable(&self) -> bool {
        self.raw.is_mutable()
    }
    pub fn detach(&self) {
        self.raw.detach()
    }
    pub fn splice_children(&self, to_delete: Range<usize>, to_insert: Vec<SyntaxElement<L>>) {
        self.raw.splice_children(to_delete, to_insert.into_iter().map(unel).collect())
    }
}

impl<L: Language> SyntaxToken<L> {
    pub fn replace_with(&self, new_token: GreenToken) -> GreenNode {
        self.raw.replace_with(new_token)
    }
    pub fn kind(&self) -> L::Kind {
        L::kind_from_raw(self.raw.kind())
    }
    pub fn text_range(&self) -> TextRange {
        self.raw.text_range()
    }
    pub fn index(&self) -> usize {
        self.raw.index()
    }
    pub fn text(&self) -> &str {
        self.raw.text()
    }
    pub fn green(&self) -> &GreenTokenData {
        self.raw.green()
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.raw.parent().map(SyntaxNode::from)
    }
    #[deprecated = "use `SyntaxToken::parent_ancestors` instead"]
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.parent_ancestors()
    }
    pub fn parent_ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        iter::successors(self.raw.parent(), cursor::SyntaxNode::parent).map(SyntaxNode::from)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.next_sibling_or_token().map(el)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.prev_sibling_or_token().map(el)
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: cursor::SyntaxElement = self.raw.clone().into();
        iter::successors(Some(me), move |e| match direction {
            Direction::Next => e.next_sibling_or_token(),
            Direction::Prev => e.prev_sibling_or_token(),
        })
        .map(el)
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.next_token().map(SyntaxToken::from)
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.prev_token().map(SyntaxToken::from)
    }
    pub fn detach(&self) {
        self.raw.detach()
    }
}

impl<L: Language> SyntaxElement<L> {
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(it) => it.text_range(),
            NodeOrToken::Token(it) => it.text_range(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(it) => it.index(),
            NodeOrToken::Token(it) => it.index(),
        }
    }
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(it) => it.kind(),
            NodeOrToken::Token(it) => it.kind(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(it) => it.parent(),
            NodeOrToken::Token(it) => it.parent(),
        }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let first = match self {
            NodeOrToken::Node(it) => Some(it.clone()),
            NodeOrToken::Token(it) => it.parent(),
        };
        iter::successors(first, SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(it) => it.next_sibling_or_token(),
            NodeOrToken::Token(it) => it.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(it) => it.prev_sibling_or_token(),
            NodeOrToken::Token(it) => it.prev_sibling_or_token(),
        }
    }
    pub fn detach(&self) {
        match self {
            NodeOrToken::Node(it) => it.detach(),
            NodeOrToken::Token(it) => it.detach(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct SyntaxNodeChildren<L: Language> {
    raw: cursor::SyntaxNodeChildren,
    _p: PhantomData<L>,
}
impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(SyntaxNode::from)
    }
}
impl<L: Language> SyntaxNodeChildren<L> {
    pub fn by_kind(self, matcher: impl Fn(L::Kind) -> bool) -> impl Iterator<Item = SyntaxNode<L>> {
        self.filter(move |it| matcher(it.kind()))
    }
}
#[derive(Debug, Clone)]
pub struct SyntaxElementChildren<L: Language> {
    raw: cursor::SyntaxElementChildren,
    _p: PhantomData<L>,
}
impl<L: Language> Iterator for SyntaxElementChildren<L> {
    type Item = SyntaxElement<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(el)
    }
}
impl<L: Language> SyntaxElementChildren<L> {
    pub fn by_kind(self, matcher: impl Fn(L::Kind) -> bool) -> impl Iterator<Item = SyntaxElement<L>> {
        self.filter(move |it| matcher(it.kind()))
    }
}
pub struct Preorder<L: Language> {
    raw: cursor::Preorder,
    _p: PhantomData<L>,
}
impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) {
        self.raw.skip_subtree()
    }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(|it| it.map(SyntaxNode::from))
    }
}
pub struct PreorderWithTokens<L: Language> {
    raw: cursor::PreorderWithTokens,
    _p: PhantomData<L>,
}
impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        self.raw.skip_subtree()
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(|it| it.map(el))
    }
}
