//! Stand-in for `rowan` 0.15.15 (not available offline): lossless green/red trees with the
//! same public API and observable semantics, written from the documentation in safe Rust.
mod green;
pub mod cursor;
pub mod api;
pub mod ast;
mod syntax_text;
mod utility_types;

pub use crate::{
    api::{
        Language, SyntaxElement, SyntaxElementChildren, SyntaxNode, SyntaxNodeChildren, SyntaxToken,
    },
    green::{
        Checkpoint, Children, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken,
        GreenTokenData, NodeCache, SyntaxKind,
    },
    syntax_text::SyntaxText,
    utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent},
};
pub use text_size::{TextLen, TextRange, TextSize};
