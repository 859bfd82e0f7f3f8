pub trait Automaton {
    type State;
    fn start(&self) -> Self::State;
    fn is_match(&self, state: &Self::State) -> bool;
    fn can_match(&self, _state: &Self::State) -> bool {
        true
    }
    fn will_always_match(&self, _state: &Self::State) -> bool {
        false
    }
    fn accept(&self, state: &Self::State, byte: u8) -> Self::State;
    fn starts_with(self) -> StartsWith<Self>
    where
        Self: Sized,
    {
        StartsWith(self)
    }
}
impl<'a, T: Automaton> Automaton for &'a T {
    type State = T::State;
    fn start(&self) -> T::State {
        (**self).start()
    }
    fn is_match(&self, s: &T::State) -> bool {
        (**self).is_match(s)
    }
    fn can_match(&self, s: &T::State) -> bool {
        (**self).can_match(s)
    }
    fn accept(&self, s: &T::State, b: u8) -> T::State {
        (**self).accept(s, b)
    }
}
#[derive(Clone, Debug)]
pub struct Str<'a>(&'a [u8]);
impl<'a> Str<'a> {
    pub fn new(s: &'a str) -> Self {
        Str(s.as_bytes())
    }
}
impl<'a> Automaton for Str<'a> {
    type State = Option<usize>;
    fn start(&self) -> Option<usize> {
        Some(0)
    }
    fn is_match(&self, s: &Option<usize>) -> bool {
        *s == Some(self.0.len())
    }
    fn can_match(&self, s: &Option<usize>) -> bool {
        s.is_some()
    }
    fn accept(&self, s: &Option<usize>, b: u8) -> Option<usize> {
        s.and_then(|p| if self.0.get(p) == Some(&b) { Some(p + 1) } else { None })
    }
}
#[derive(Clone, Debug)]
pub struct Subsequence<'a>(&'a [u8]);
impl<'a> Subsequence<'a> {
    pub fn new(s: &'a str) -> Self {
        Subsequence(s.as_bytes())
    }
}
impl<'a> Automaton for Subsequence<'a> {
    type State = usize;
    fn start(&self) -> usize {
        0
    }
    fn is_match(&self, s: &usize) -> bool {
        *s == self.0.len()
    }
    fn will_always_match(&self, s: &usize) -> bool {
        *s == self.0.len()
    }
    fn accept(&self, &s: &usize, b: u8) -> usize {
        if s == self.0.len() {
            return s;
        }
        s + (b == self.0[s]) as usize
    }
}
#[derive(Clone, Debug)]
pub struct AlwaysMatch;
impl Automaton for AlwaysMatch {
    type State = ();
    fn start(&self) {}
    fn is_match(&self, _: &()) -> bool {
        true
    }
    fn accept(&self, _: &(), _: u8) {}
}
pub struct StartsWith<A>(A);
pub enum StartsWithState<S> {
    Done,
    Running(S),
}
impl<A: Automaton> Automaton for StartsWith<A> {
    type State = StartsWithState<A::State>;
    fn start(&self) -> Self::State {
        let i = self.0.start();
        if self.0.is_match(&i) {
            StartsWithState::Done
        } else {
            StartsWithState::Running(i)
        }
    }
    fn is_match(&self, s: &Self::State) -> bool {
        matches!(s, StartsWithState::Done)
    }
    fn can_match(&self, s: &Self::State) -> bool {
        match s {
            StartsWithState::Done => true,
            StartsWithState::Running(s) => self.0.can_match(s),
        }
    }
    fn accept(&self, s: &Self::State, b: u8) -> Self::State {
        match s {
            StartsWithState::Done => StartsWithState::Done,
            StartsWithState::Running(s) => {
                let n = self.0.accept(s, b);
                if self.0.is_match(&n) {
                    StartsWithState::Done
                } else {
                    StartsWithState::Running(n)
                }
            }
        }
    }
}
