//! Untyped red tree.
use crate::green::{GreenNode, GreenNodeData, GreenToken, GreenTokenData, SyntaxKind};
use crate::{Direction, NodeOrToken, SyntaxText, TextRange, TextSize, TokenAtOffset, WalkEvent};
use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt,
    hash::{Hash, Hasher},
    iter,
    ops::Range,
    rc::{Rc, Weak},
};

enum Green {
    Node(RefCell<GreenNode>),
    Token(GreenToken),
}

struct NodeData {
    green: Green,
    parent: RefCell<Option<SyntaxNode>>,
    index: Cell<u32>,
    /// Valid for immutable trees only.
    offset: TextSize,
    mutable: bool,
    /// Live child cursors, mutable trees only: there is one cursor per element.
    children: RefCell<BTreeMap<u32, Weak<NodeData>>>,
}

impl Drop for NodeData {
    fn drop(&mut self) {
        let mut next = self.parent.get_mut().take();
        while let Some(SyntaxNode(rc)) = next {
            match Rc::try_unwrap(rc) {
                Ok(mut data) => next = data.parent.get_mut().take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct SyntaxNode(Rc<NodeData>);
#[derive(Clone)]
pub struct SyntaxToken(Rc<NodeData>);
pub type SyntaxElement = NodeOrToken<SyntaxNode, SyntaxToken>;

impl NodeData {
    fn new(
        green: Green,
        parent: Option<SyntaxNode>,
        index: u32,
        offset: TextSize,
        mutable: bool,
    ) -> Rc<NodeData> {
        Rc::new(NodeData {
            green,
            parent: RefCell::new(parent),
            index: Cell::new(index),
            offset,
            mutable,
            children: RefCell::default(),
        })
    }
    fn key(&self) -> (usize, TextSize) {
        let ptr = match &self.green {
            Green::Node(n) => n.borrow().addr(),
            Green::Token(t) => t.addr(),
        };
        (ptr, self.offset())
    }
    fn parent(&self) -> Option<SyntaxNode> {
        self.parent.borrow().clone()
    }
    fn offset(&self) -> TextSize {
        if !self.mutable {
            return self.offset;
        }
        let mut res = TextSize::new(0);
        let mut index = self.index.get() as usize;
        let mut parent = self.parent();
        while let Some(p) = parent {
            res += p.green_node().borrow().slice()[index].rel_offset;
            index = p.0.index.get() as usize;
            parent = p.0.parent();
        }
        res
    }
    fn text_len(&self) -> TextSize {
        match &self.green {
            Green::Node(n) => n.borrow().text_len(),
            Green::Token(t) => t.text_len(),
        }
    }
    fn text_range(&self) -> TextRange {
        TextRange::at(self.offset(), self.text_len())
    }
    fn kind(&self) -> SyntaxKind {
        match &self.green {
            Green::Node(n) => n.borrow().kind(),
            Green::Token(t) => t.kind(),
        }
    }
    fn next_sibling(&self) -> Option<SyntaxNode> {
        let parent = self.parent()?;
        parent.find_node(self.index.get() as usize + 1, true)
    }
    fn prev_sibling(&self) -> Option<SyntaxNode> {
        let parent = self.parent()?;
        let i = (self.index.get() as usize).checked_sub(1)?;
        parent.find_node(i, false)
    }
    fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.parent()?.child_at(self.index.get() as usize + 1)
    }
    fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.parent()?.child_at((self.index.get() as usize).checked_sub(1)?)
    }
    fn detach(&self) {
        assert!(self.mutable);
        let Some(parent) = self.parent.borrow_mut().take() else { return };
        let index = self.index.replace(0);
        {
            let mut children = parent.0.children.borrow_mut();
            let old = std::mem::take(&mut *children);
            for (i, c) in old {
                if i == index {
                    continue;
                }
                let i = if i > index { i - 1 } else { i };
                if let Some(live) = c.upgrade() {
                    live.index.set(i);
                    children.insert(i, c);
                }
            }
        }
        let green = parent.green_node().borrow().remove_child(index as usize);
        parent.respine(green);
    }
}

impl SyntaxNode {
    fn green_node(&self) -> &RefCell<GreenNode> {
        match &self.0.green {
            Green::Node(n) => n,
            Green::Token(_) => unreachable!(),
        }
    }
    pub fn new_root(green: GreenNode) -> SyntaxNode {
        SyntaxNode(NodeData::new(Green::Node(RefCell::new(green)), None, 0, 0.into(), false))
    }
    pub fn new_root_mut(green: GreenNode) -> SyntaxNode {
        SyntaxNode(NodeData::new(Green::Node(RefCell::new(green)), None, 0, 0.into(), true))
    }
    pub fn clone_for_update(&self) -> SyntaxNode {
        assert!(!self.0.mutable);
        match self.parent() {
            Some(parent) => {
                let parent = parent.clone_for_update();
                parent.child_at(self.index()).and_then(|it| it.into_node()).unwrap()
            }
            None => SyntaxNode::new_root_mut(self.green_node().borrow().clone()),
        }
    }
    pub fn clone_subtree(&self) -> SyntaxNode {
        SyntaxNode::new_root(self.green_node().borrow().clone())
    }
    pub fn is_mutable(&self) -> bool {
        self.0.mutable
    }

    fn respine(&self, mut new_green: GreenNode) {
        let mut node = self.clone();
        loop {
            *node.green_node().borrow_mut() = new_green.clone();
            match node.parent() {
                Some(parent) => {
                    new_green =
                        parent.green_node().borrow().replace_child(node.index(), NodeOrToken::Node(new_green));
                    node = parent;
                }
                None => break,
            }
        }
    }

    fn child_at(&self, index: usize) -> Option<SyntaxElement> {
        let green_ref = self.green_node().borrow();
        let raw = green_ref.slice().get(index)?;
        Some(self.make_child(index, raw))
    }
    fn make_child(&self, index: usize, raw: &crate::green::GreenChild) -> SyntaxElement {
        if self.0.mutable {
            if let Some(live) = self.0.children.borrow().get(&(index as u32)).and_then(|w| w.upgrade()) {
                return match &live.green {
                    Green::Node(_) => NodeOrToken::Node(SyntaxNode(live)),
                    Green::Token(_) => NodeOrToken::Token(SyntaxToken(live)),
                };
            }
        }
        let offset = if self.0.mutable { 0.into() } else { self.0.offset + raw.rel_offset };
        let (green, is_node) = match &raw.element {
            NodeOrToken::Node(n) => (Green::Node(RefCell::new(n.clone())), true),
            NodeOrToken::Token(t) => (Green::Token(t.clone()), false),
        };
        let data = NodeData::new(green, Some(self.clone()), index as u32, offset, self.0.mutable);
        if self.0.mutable {
            self.0.children.borrow_mut().insert(index as u32, Rc::downgrade(&data));
        }
        if is_node {
            NodeOrToken::Node(SyntaxNode(data))
        } else {
            NodeOrToken::Token(SyntaxToken(data))
        }
    }
    /// First node child at or after (before) `index`.
    fn find_node(&self, mut index: usize, forward: bool) -> Option<SyntaxNode> {
        let green_ref = self.green_node().borrow();
        let slice = green_ref.slice();
        loop {
            let raw = slice.get(index)?;
            if let NodeOrToken::Node(_) = &raw.element {
                return self.make_child(index, raw).into_node();
            }
            index = if forward { index + 1 } else { index.checked_sub(1)? };
        }
    }

    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        match &self.parent() {
            None => replacement,
            Some(parent) => {
                let new_parent =
                    parent.green_node().borrow().replace_child(self.index(), replacement.into());
                parent.replace_with(new_parent)
            }
        }
    }
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn index(&self) -> usize {
        self.0.index.get() as usize
    }
    pub fn text(&self) -> SyntaxText {
        SyntaxText::new(self.clone())
    }
    pub fn green(&self) -> Cow<'_, GreenNodeData> {
        Cow::Owned(self.green_node().borrow().clone())
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.0.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        iter::successors(Some(self.clone()), SyntaxNode::parent)
    }
    pub fn children(&self) -> SyntaxNodeChildren {
        SyntaxNodeChildren { next: self.first_child() }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren {
        SyntaxElementChildren { next: self.first_child_or_token() }
    }
    pub fn first_child(&self) -> Option<SyntaxNode> {
        self.find_node(0, true)
    }
    pub fn last_child(&self) -> Option<SyntaxNode> {
        let n = self.green_node().borrow().slice().len();
        self.find_node(n.checked_sub(1)?, false)
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement> {
        self.child_at(0)
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement> {
        let n = self.green_node().borrow().slice().len();
        self.child_at(n.checked_sub(1)?)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode> {
        self.0.next_sibling()
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode> {
        self.0.prev_sibling()
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.0.next_sibling_or_token()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.0.prev_sibling_or_token()
    }
    pub fn first_token(&self) -> Option<SyntaxToken> {
        self.first_child_or_token()?.first_token()
    }
    pub fn last_token(&self) -> Option<SyntaxToken> {
        self.last_child_or_token()?.last_token()
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode> {
        iter::successors(Some(self.clone()), move |node| match direction {
            Direction::Next => node.next_sibling(),
            Direction::Prev => node.prev_sibling(),
        })
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement> {
        let me: SyntaxElement = self.clone().into();
        iter::successors(Some(me), move |el| match direction {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode> {
        self.preorder().filter_map(|event| match event {
            WalkEvent::Enter(node) => Some(node),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement> {
        self.preorder_with_tokens().filter_map(|event| match event {
            WalkEvent::Enter(it) => Some(it),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn preorder(&self) -> Preorder {
        Preorder { start: self.clone(), next: Some(WalkEvent::Enter(self.clone())), skip_subtree: false }
    }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens {
        let start: SyntaxElement = self.clone().into();
        PreorderWithTokens { start: start.clone(), next: Some(WalkEvent::Enter(start)), skip_subtree: false }
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        let range = self.text_range();
        assert!(
            range.start() <= offset && offset <= range.end(),
            "Bad offset: range {:?} offset {:?}",
            range,
            offset
        );
        if range.is_empty() {
            return TokenAtOffset::None;
        }
        let mut children = self.children_with_tokens().filter(|child| {
            let r = child.text_range();
            !r.is_empty() && r.start() <= offset && offset <= r.end()
        });
        let left = children.next().unwrap();
        let right = children.next();
        assert!(children.next().is_none());
        if let Some(right) = right {
            match (left.token_at_offset(offset), right.token_at_offset(offset)) {
                (TokenAtOffset::Single(left), TokenAtOffset::Single(right)) => {
                    TokenAtOffset::Between(left, right)
                }
                _ => unreachable!(),
            }
        } else {
            left.token_at_offset(offset)
        }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement {
        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(
                res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                res.text_range(),
                range,
            );
            res = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(node) => match node.child_or_token_at_range(range) {
                    Some(it) => it,
                    None => return res,
                },
            };
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement> {
        let start_offset = self.text_range().start();
        let rel_range = range.checked_sub(start_offset)?;
        let index = self.green_node().borrow().child_at_range(rel_range)?.0;
        self.child_at(index)
    }
    pub fn splice_children(&self, to_delete: Range<usize>, to_insert: Vec<SyntaxElement>) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete.contains(&i) {
                child.detach();
            }
        }
        let mut index = to_delete.start;
        for child in to_insert {
            self.attach_child(index, child);
            index += 1;
        }
    }
    pub fn detach(&self) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        self.0.detach()
    }
    fn attach_child(&self, index: usize, child: SyntaxElement) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        child.detach();
        let data = match &child {
            NodeOrToken::Node(it) => &it.0,
            NodeOrToken::Token(it) => &it.0,
        };
        assert!(data.mutable && data.parent.borrow().is_none());
        assert!(!Rc::ptr_eq(data, &self.0));
        {
            let mut children = self.0.children.borrow_mut();
            let old = std::mem::take(&mut *children);
            for (i, c) in old {
                let i = if i as usize >= index { i + 1 } else { i };
                if let Some(live) = c.upgrade() {
                    live.index.set(i);
                    children.insert(i, c);
                }
            }
            children.insert(index as u32, Rc::downgrade(data));
        }
        data.index.set(index as u32);
        *data.parent.borrow_mut() = Some(self.clone());
        let child_green = match &data.green {
            Green::Node(n) => NodeOrToken::Node(n.borrow().clone()),
            Green::Token(t) => NodeOrToken::Token(t.clone()),
        };
        let green = self.green_node().borrow().insert_child(index, child_green);
        self.respine(green);
    }
}

impl SyntaxToken {
    fn green_token(&self) -> &GreenToken {
        match &self.0.green {
            Green::Token(t) => t,
            Green::Node(_) => unreachable!(),
        }
    }
    pub fn replace_with(&self, replacement: GreenToken) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        let parent = self.parent().unwrap();
        let new_parent = parent.green_node().borrow().replace_child(self.index(), replacement.into());
        parent.replace_with(new_parent)
    }
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn index(&self) -> usize {
        self.0.index.get() as usize
    }
    pub fn text(&self) -> &str {
        self.green_token().text()
    }
    pub fn green(&self) -> &GreenTokenData {
        self.green_token()
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.0.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.0.next_sibling_or_token()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.0.prev_sibling_or_token()
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement> {
        let me: SyntaxElement = self.clone().into();
        iter::successors(Some(me), move |el| match direction {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn next_token(&self) -> Option<SyntaxToken> {
        match self.next_sibling_or_token() {
            Some(element) => element.first_token(),
            None => self
                .ancestors()
                .find_map(|it| it.next_sibling_or_token())
                .and_then(|element| element.first_token()),
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken> {
        match self.prev_sibling_or_token() {
            Some(element) => element.last_token(),
            None => self
                .ancestors()
                .find_map(|it| it.prev_sibling_or_token())
                .and_then(|element| element.last_token()),
        }
    }
    pub fn detach(&self) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        self.0.detach()
    }
}

impl From<SyntaxNode> for SyntaxElement {
    fn from(node: SyntaxNode) -> SyntaxElement {
        NodeOrToken::Node(node)
    }
}
impl From<SyntaxToken> for SyntaxElement {
    fn from(token: SyntaxToken) -> SyntaxElement {
        NodeOrToken::Token(token)
    }
}

impl SyntaxElement {
    fn data(&self) -> &NodeData {
        match self {
            NodeOrToken::Node(n) => &n.0,
            NodeOrToken::Token(t) => &t.0,
        }
    }
    pub fn text_range(&self) -> TextRange {
        self.data().text_range()
    }
    pub fn index(&self) -> usize {
        self.data().index.get() as usize
    }
    pub fn kind(&self) -> SyntaxKind {
        self.data().kind()
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.data().parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        let first = match self {
            NodeOrToken::Node(it) => Some(it.clone()),
            NodeOrToken::Token(it) => it.parent(),
        };
        iter::successors(first, SyntaxNode::parent)
    }
    pub fn first_token(&self) -> Option<SyntaxToken> {
        match self {
            NodeOrToken::Node(it) => it.first_token(),
            NodeOrToken::Token(it) => Some(it.clone()),
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken> {
        match self {
            NodeOrToken::Node(it) => it.last_token(),
            NodeOrToken::Token(it) => Some(it.clone()),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.data().next_sibling_or_token()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.data().prev_sibling_or_token()
    }
    fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        assert!(self.text_range().start() <= offset && offset <= self.text_range().end());
        match self {
            NodeOrToken::Token(token) => TokenAtOffset::Single(token.clone()),
            NodeOrToken::Node(node) => node.token_at_offset(offset),
        }
    }
    pub fn detach(&self) {
        match self {
            NodeOrToken::Node(it) => it.detach(),
            NodeOrToken::Token(it) => it.detach(),
        }
    }
    fn first_child_or_token(&self) -> Option<SyntaxElement> {
        match self {
            NodeOrToken::Node(it) => it.first_child_or_token(),
            NodeOrToken::Token(_) => None,
        }
    }
}

macro_rules! identity {
    ($($t:ty),*) => {$(
        impl PartialEq for $t {
            fn eq(&self, other: &Self) -> bool {
                self.0.key() == other.0.key()
            }
        }
        impl Eq for $t {}
        impl Hash for $t {
            fn hash<H: Hasher>(&self, state: &mut H) {
                self.0.key().hash(state);
            }
        }
    )*};
}
identity!(SyntaxNode, SyntaxToken);

impl fmt::Debug for SyntaxNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("SyntaxNode").field("kind", &self.kind()).field("text_range", &self.text_range()).finish()
    }
}
impl fmt::Display for SyntaxNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.preorder_with_tokens()
            .filter_map(|event| match event {
                WalkEvent::Enter(NodeOrToken::Token(token)) => Some(token),
                _ => None,
            })
            .try_for_each(|it| fmt::Display::fmt(&it, f))
    }
}
impl fmt::Debug for SyntaxToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("SyntaxToken").field("kind", &self.kind()).field("text_range", &self.text_range()).finish()
    }
}
impl fmt::Display for SyntaxToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.text(), f)
    }
}

#[derive(Clone, Debug)]
pub struct SyntaxNodeChildren {
    next: Option<SyntaxNode>,
}
impl Iterator for SyntaxNodeChildren {
    type Item = SyntaxNode;
    fn next(&mut self) -> Option<SyntaxNode> {
        self.next.take().map(|next| {
            self.next = next.next_sibling();
            next
        })
    }
}

#[derive(Clone, Debug)]
pub struct SyntaxElementChildren {
    next: Option<SyntaxElement>,
}
impl Iterator for SyntaxElementChildren {
    type Item = SyntaxElement;
    fn next(&mut self) -> Option<SyntaxElement> {
        self.next.take().map(|next| {
            self.next = next.next_sibling_or_token();
            next
        })
    }
}

pub struct Preorder {
    start: SyntaxNode,
    next: Option<WalkEvent<SyntaxNode>>,
    skip_subtree: bool,
}
impl Preorder {
    pub fn skip_subtree(&mut self) {
        self.skip_subtree = true;
    }
    fn do_skip(&mut self) {
        self.next = self.next.take().map(|next| match next {
            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap()),
            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
        })
    }
}
impl Iterator for Preorder {
    type Item = WalkEvent<SyntaxNode>;
    fn next(&mut self) -> Option<WalkEvent<SyntaxNode>> {
        if self.skip_subtree {
            self.do_skip();
            self.skip_subtree = false;
        }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) => match node.first_child() {
                    Some(child) => WalkEvent::Enter(child),
                    None => WalkEvent::Leave(node.clone()),
                },
                WalkEvent::Leave(node) => {
                    if node == &self.start {
                        return None;
                    }
                    match node.next_sibling() {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(node.parent()?),
                    }
                }
            })
        });
        next
    }
}

pub struct PreorderWithTokens {
    start: SyntaxElement,
    next: Option<WalkEvent<SyntaxElement>>,
    skip_subtree: bool,
}
impl PreorderWithTokens {
    pub fn skip_subtree(&mut self) {
        self.skip_subtree = true;
    }
    fn do_skip(&mut self) {
        self.next = self.next.take().map(|next| match next {
            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap().into()),
            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
        })
    }
}
impl Iterator for PreorderWithTokens {
    type Item = WalkEvent<SyntaxElement>;
    fn next(&mut self) -> Option<WalkEvent<SyntaxElement>> {
        if self.skip_subtree {
            self.do_skip();
            self.skip_subtree = false;
        }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(el) => match el.first_child_or_token() {
                    Some(child) => WalkEvent::Enter(child),
                    None => WalkEvent::Leave(el.clone()),
                },
                WalkEvent::Leave(el) if el == &self.start => return None,
                WalkEvent::Leave(el) => match el.next_sibling_or_token() {
                    Some(sibling) => WalkEvent::Enter(sibling),
                    None => WalkEvent::Leave(el.parent()?.into()),
                },
            })
        });
        next
    }
}
