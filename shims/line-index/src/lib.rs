//! Stand-in for `line-index` 0.1.2.
use std::collections::HashMap;
pub use text_size::{TextRange, TextSize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LineCol {
    /// Zero-based.
    pub line: u32,
    /// Zero-based UTF-8 offset.
    pub col: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[non_exhaustive]
pub enum WideEncoding {
    Utf16,
    Utf32,
}
impl WideEncoding {
    pub fn measure(&self, text: &str) -> usize {
        match self {
            WideEncoding::Utf16 => text.encode_utf16().count(),
            WideEncoding::Utf32 => text.chars().count(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct WideChar {
    start: TextSize,
    end: TextSize,
}
impl WideChar {
    fn len(&self) -> u32 {
        u32::from(self.end - self.start)
    }
    fn wide_len(&self, enc: WideEncoding) -> u32 {
        match enc {
            WideEncoding::Utf16 => {
                if self.len() == 4 {
                    2
                } else {
                    1
                }
            }
            WideEncoding::Utf32 => 1,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LineIndex {
    newlines: Box<[TextSize]>,
    line_wide_chars: HashMap<u32, Box<[WideChar]>>,
    len: TextSize,
}

impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = Vec::new();
        let mut line_wide_chars: HashMap<u32, Vec<WideChar>> = HashMap::new();
        let mut line_start = 0usize;
        for (i, c) in text.char_indices() {
            if c == '\n' {
                newlines.push(TextSize::new(i as u32 + 1));
                line_start = i + 1;
            } else if c.len_utf8() > 1 {
                let start = TextSize::new((i - line_start) as u32);
                let end = start + TextSize::of(c);
                line_wide_chars.entry(newlines.len() as u32).or_default().push(WideChar { start, end });
            }
        }
        LineIndex {
            newlines: newlines.into_boxed_slice(),
            line_wide_chars: line_wide_chars.into_iter().map(|(k, v)| (k, v.into_boxed_slice())).collect(),
            len: TextSize::of(text),
        }
    }
    pub fn line_col(&self, offset: TextSize) -> LineCol {
        self.try_line_col(offset).expect("invalid offset")
    }
    pub fn try_line_col(&self, offset: TextSize) -> Option<LineCol> {
        if offset > self.len {
            return None;
        }
        let line = self.newlines.partition_point(|&it| it <= offset);
        let start = self.start_offset(line)?;
        let col = offset - start;
        let line_col = LineCol { line: line as u32, col: col.into() };
        self.line_wide_chars
            .get(&line_col.line)
            .into_iter()
            .flat_map(|it| it.iter())
            .all(|it| col <= it.start || it.end <= col)
            .then_some(line_col)
    }
    pub fn offset(&self, line_col: LineCol) -> Option<TextSize> {
        self.start_offset(line_col.line as usize).map(|start| start + TextSize::from(line_col.col))
    }
    fn start_offset(&self, line: usize) -> Option<TextSize> {
        match line.checked_sub(1) {
            None => Some(TextSize::from(0)),
            Some(it) => self.newlines.get(it).copied(),
        }
    }
    pub fn to_wide(&self, enc: WideEncoding, line_col: LineCol) -> Option<WideLineCol> {
        let mut col = line_col.col;
        if let Some(wide_chars) = self.line_wide_chars.get(&line_col.line) {
            for c in wide_chars.iter() {
                if u32::from(c.end) <= line_col.col {
                    col = col.checked_sub(c.len() - c.wide_len(enc))?;
                } else {
                    break;
                }
            }
        }
        Some(WideLineCol { line: line_col.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, line_col: WideLineCol) -> Option<LineCol> {
        let mut col = line_col.col;
        if let Some(wide_chars) = self.line_wide_chars.get(&line_col.line) {
            for c in wide_chars.iter() {
                if col > u32::from(c.start) {
                    col = col.checked_add(c.len() - c.wide_len(enc))?;
                } else {
                    break;
                }
            }
        }
        Some(LineCol { line: line_col.line, col })
    }
    pub fn line(&self, line: u32) -> Option<TextRange> {
        let start = self.start_offset(line as usize)?;
        let next_newline = self.newlines.get(line as usize).copied().unwrap_or(self.len);
        Some(TextRange::new(start, next_newline))
    }
    pub fn lines(&self, range: TextRange) -> impl Iterator<Item = TextRange> + '_ {
        let lo = self.newlines.partition_point(|&it| it < range.start());
        let hi = self.newlines.partition_point(|&it| it <= range.end());
        let all = std::iter::once(range.start())
            .chain(self.newlines[lo..hi].iter().copied())
            .chain(std::iter::once(range.end()));
        all.clone().zip(all.skip(1)).map(|(lo, hi)| TextRange::new(lo, hi)).filter(|it| !it.is_empty())
    }
    pub fn len(&self) -> TextSize {
        self.len
    }
}
