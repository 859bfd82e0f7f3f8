//! Stand-in for the `fst` crate: ordered byte-string maps, over a sorted vector. The automaton
//! traits are those of the real crate and are run over every key byte by byte.
use std::fmt;

pub mod automaton;
pub use automaton::Automaton;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    OutOfOrder { previous: Vec<u8>, got: Vec<u8> },
    DuplicateKey { got: Vec<u8> },
    Format,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait Streamer<'a> {
    type Item: 'a;
    fn next(&'a mut self) -> Option<Self::Item>;
}
pub trait IntoStreamer<'a> {
    type Item: 'a;
    type Into: for<'b> Streamer<'b, Item = <Self as IntoStreamer<'a>>::Item>;
    fn into_stream(self) -> Self::Into;
}

pub mod raw {
    #[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
    pub struct IndexedValue {
        pub index: usize,
        pub value: u64,
    }
    pub struct Fst<D> {
        pub(crate) data: D,
        pub(crate) entries: Vec<(Vec<u8>, u64)>,
    }
    impl<D: AsRef<[u8]>> Fst<D> {
        pub fn size(&self) -> usize {
            self.data.as_ref().len()
        }
        pub fn len(&self) -> usize {
            self.entries.len()
        }
        pub fn is_empty(&self) -> bool {
            self.entries.is_empty()
        }
        pub fn as_bytes(&self) -> &[u8] {
            self.data.as_ref()
        }
    }
}

pub struct Map<D>(raw::Fst<D>);

impl<D: AsRef<[u8]>> Map<D> {
    pub fn new(data: D) -> Result<Map<D>> {
        let mut entries = vec![];
        let mut b = data.as_ref();
        while !b.is_empty() {
            if b.len() < 4 {
                return Err(Error::Format);
            }
            let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
            if b.len() < 12 + n {
                return Err(Error::Format);
            }
            let k = b[4..4 + n].to_vec();
            let v = u64::from_le_bytes(b[4 + n..12 + n].try_into().unwrap());
            entries.push((k, v));
            b = &b[12 + n..];
        }
        Ok(Map(raw::Fst { data, entries }))
    }
    pub fn as_fst(&self) -> &raw::Fst<D> {
        &self.0
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Option<u64> {
        let e = &self.0.entries;
        e.binary_search_by(|p| p.0.as_slice().cmp(k.as_ref())).ok().map(|i| e[i].1)
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> bool {
        self.get(k).is_some()
    }
    pub fn search<A: Automaton>(&self, aut: A) -> map::StreamBuilder<'_> {
        let v = self
            .0
            .entries
            .iter()
            .filter(|(k, _)| {
                let mut s = aut.start();
                for b in k {
                    if !aut.can_match(&s) {
                        return false;
                    }
                    s = aut.accept(&s, *b);
                }
                aut.is_match(&s)
            })
            .map(|(k, v)| (k.as_slice(), *v))
            .collect();
        map::StreamBuilder { items: v }
    }
    pub fn stream(&self) -> map::Stream<'_> {
        map::Stream { items: self.0.entries.iter().map(|(k, v)| (k.as_slice(), *v)).collect(), at: 0 }
    }
}
impl Default for Map<Vec<u8>> {
    fn default() -> Self {
        Map::new(vec![]).unwrap()
    }
}
impl Map<Vec<u8>> {
    pub fn from_iter<K: AsRef<[u8]>, I: IntoIterator<Item = (K, u64)>>(i: I) -> Result<Self> {
        let mut b = MapBuilder::memory();
        for (k, v) in i {
            b.insert(k, v)?;
        }
        Map::new(b.into_inner()?)
    }
}

pub struct MapBuilder<W> {
    out: W,
    last: Option<Vec<u8>>,
}
impl MapBuilder<Vec<u8>> {
    pub fn memory() -> Self {
        MapBuilder { out: vec![], last: None }
    }
    pub fn insert<K: AsRef<[u8]>>(&mut self, key: K, val: u64) -> Result<()> {
        let key = key.as_ref();
        if let Some(last) = &self.last {
            match last.as_slice().cmp(key) {
                std::cmp::Ordering::Less => {}
                std::cmp::Ordering::Equal => return Err(Error::DuplicateKey { got: key.to_vec() }),
                std::cmp::Ordering::Greater => {
                    return Err(Error::OutOfOrder { previous: last.clone(), got: key.to_vec() })
                }
            }
        }
        self.last = Some(key.to_vec());
        self.out.extend((key.len() as u32).to_le_bytes());
        self.out.extend(key);
        self.out.extend(val.to_le_bytes());
        Ok(())
    }
    pub fn into_inner(self) -> Result<Vec<u8>> {
        Ok(self.out)
    }
    pub fn into_map(self) -> Map<Vec<u8>> {
        Map::new(self.out).unwrap()
    }
}

pub mod map {
    use super::{raw::IndexedValue, Streamer};

    pub struct StreamBuilder<'m> {
        pub(crate) items: Vec<(&'m [u8], u64)>,
    }
    pub struct Stream<'m> {
        pub(crate) items: Vec<(&'m [u8], u64)>,
        pub(crate) at: usize,
    }
    impl<'a, 'm> Streamer<'a> for Stream<'m> {
        type Item = (&'a [u8], u64);
        fn next(&'a mut self) -> Option<(&'a [u8], u64)> {
            let r = self.items.get(self.at).copied();
            self.at += 1;
            r
        }
    }
    impl<'m> StreamBuilder<'m> {
        pub fn into_stream(self) -> Stream<'m> {
            Stream { items: self.items, at: 0 }
        }
        pub fn ge<T: AsRef<[u8]>>(mut self, b: T) -> Self {
            self.items.retain(|i| i.0 >= b.as_ref());
            self
        }
        pub fn lt<T: AsRef<[u8]>>(mut self, b: T) -> Self {
            self.items.retain(|i| i.0 < b.as_ref());
            self
        }
    }

    #[derive(Default)]
    pub struct OpBuilder<'m> {
        streams: Vec<Vec<(&'m [u8], u64)>>,
    }
    pub trait IntoItems<'m> {
        fn items(self) -> Vec<(&'m [u8], u64)>;
    }
    impl<'m> IntoItems<'m> for StreamBuilder<'m> {
        fn items(self) -> Vec<(&'m [u8], u64)> {
            self.items
        }
    }
    impl<'m> IntoItems<'m> for Stream<'m> {
        fn items(self) -> Vec<(&'m [u8], u64)> {
            self.items
        }
    }
    impl<'m, D: AsRef<[u8]>> IntoItems<'m> for &'m super::Map<D> {
        fn items(self) -> Vec<(&'m [u8], u64)> {
            self.stream().items
        }
    }
    impl<'m> OpBuilder<'m> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn add<I: IntoItems<'m>>(mut self, i: I) -> Self {
            self.streams.push(i.items());
            self
        }
        pub fn push<I: IntoItems<'m>>(&mut self, i: I) {
            self.streams.push(i.items());
        }
        pub fn union(self) -> Union<'m> {
            let mut m: std::collections::BTreeMap<&'m [u8], Vec<IndexedValue>> = Default::default();
            for (index, s) in self.streams.into_iter().enumerate() {
                for (k, value) in s {
                    m.entry(k).or_default().push(IndexedValue { index, value });
                }
            }
            Union { items: m.into_iter().collect(), at: 0 }
        }
    }
    pub struct Union<'m> {
        items: Vec<(&'m [u8], Vec<IndexedValue>)>,
        at: usize,
    }
    impl<'a, 'm> Streamer<'a> for Union<'m> {
        type Item = (&'a [u8], &'a [IndexedValue]);
        fn next(&'a mut self) -> Option<Self::Item> {
            let r = self.items.get(self.at)?;
            self.at += 1;
            Some((r.0, &r.1))
        }
    }
}
