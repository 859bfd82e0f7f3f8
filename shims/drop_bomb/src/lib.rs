//! Stand-in for `drop_bomb` 0.1.5.
use std::borrow::Cow;
use std::ops::{Deref, DerefMut};

#[derive(Debug)]
#[must_use]
pub struct DropBomb(Inner);
#[derive(Debug)]
struct Inner {
    msg: Cow<'static, str>,
    defused: bool,
}
impl DropBomb {
    pub fn new(msg: impl Into<Cow<'static, str>>) -> DropBomb {
        DropBomb(Inner { msg: msg.into(), defused: false })
    }
    pub fn defuse(&mut self) {
        self.0.defused = true;
    }
    pub fn is_defused(&self) -> bool {
        self.0.defused
    }
}
impl Drop for Inner {
    fn drop(&mut self) {
        if !self.defused && !std::thread::panicking() {
            panic!("{}", self.msg)
        }
    }
}
#[derive(Debug)]
#[must_use]
pub struct DebugDropBomb(DropBomb);
impl DebugDropBomb {
    pub fn new(msg: impl Into<Cow<'static, str>>) -> DebugDropBomb {
        let mut b = DropBomb::new(msg);
        if !cfg!(debug_assertions) {
            b.defuse();
        }
        DebugDropBomb(b)
    }
    pub fn defuse(&mut self) {
        self.0.defuse()
    }
    pub fn is_defused(&self) -> bool {
        self.0.is_defused()
    }
}
impl Deref for DebugDropBomb {
    type Target = DropBomb;
    fn deref(&self) -> &DropBomb {
        &self.0
    }
}
impl DerefMut for DebugDropBomb {
    fn deref_mut(&mut self) -> &mut DropBomb {
        &mut self.0
    }
}
