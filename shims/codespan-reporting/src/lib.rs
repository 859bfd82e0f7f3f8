//! The interface of the real renderer; a diagnostic is written as one line a monitor can read back:
//! `DIAG <severity>\t<code>\t<message>\t<path>\t<start>..<end>` (one `LABEL` line per further label).
pub mod diagnostic {
    use std::ops::Range;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Severity {
        Bug,
        Error,
        Warning,
        Note,
        Help,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum LabelStyle {
        Primary,
        Secondary,
    }
    #[derive(Debug, Clone)]
    pub struct Label<F> {
        pub style: LabelStyle,
        pub file_id: F,
        pub range: Range<usize>,
        pub message: String,
    }
    impl<F> Label<F> {
        pub fn new(style: LabelStyle, file_id: F, range: impl Into<Range<usize>>) -> Self {
            Label { style, file_id, range: range.into(), message: String::new() }
        }
        pub fn primary(file_id: F, range: impl Into<Range<usize>>) -> Self {
            Self::new(LabelStyle::Primary, file_id, range)
        }
        pub fn secondary(file_id: F, range: impl Into<Range<usize>>) -> Self {
            Self::new(LabelStyle::Secondary, file_id, range)
        }
        pub fn with_message(mut self, m: impl ToString) -> Self {
            self.message = m.to_string();
            self
        }
    }
    #[derive(Debug, Clone)]
    pub struct Diagnostic<F> {
        pub severity: Severity,
        pub code: Option<String>,
        pub message: String,
        pub labels: Vec<Label<F>>,
        pub notes: Vec<String>,
    }
    impl<F> Diagnostic<F> {
        pub fn new(severity: Severity) -> Self {
            Diagnostic { severity, code: None, message: String::new(), labels: vec![], notes: vec![] }
        }
        pub fn with_code(mut self, c: impl ToString) -> Self {
            self.code = Some(c.to_string());
            self
        }
        pub fn with_message(mut self, m: impl ToString) -> Self {
            self.message = m.to_string();
            self
        }
        pub fn with_label(mut self, l: Label<F>) -> Self {
            self.labels.push(l);
            self
        }
        pub fn with_labels(mut self, l: Vec<Label<F>>) -> Self {
            self.labels.extend(l);
            self
        }
        pub fn with_notes(mut self, n: Vec<String>) -> Self {
            self.notes.extend(n);
            self
        }
    }
}
pub mod files {
    #[derive(Debug, Clone)]
    pub struct SimpleFiles<N, S> {
        pub(crate) files: Vec<(N, S)>,
    }
    impl<N: std::fmt::Display, S: AsRef<str>> SimpleFiles<N, S> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            SimpleFiles { files: vec![] }
        }
        pub fn add(&mut self, name: N, source: S) -> usize {
            self.files.push((name, source));
            self.files.len() - 1
        }
    }
    #[derive(Debug)]
    pub enum Error {
        FileMissing,
        InvalidRange,
        Io(std::io::Error),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
}
pub mod term {
    use super::{diagnostic::Diagnostic, files::*};
    use std::io::Write;
    pub mod termcolor {
        #[derive(Debug, Clone, Copy)]
        pub enum ColorChoice {
            Always,
            AlwaysAnsi,
            Auto,
            Never,
        }
        pub struct StandardStream(Box<dyn std::io::Write>);
        impl StandardStream {
            pub fn stderr(_: ColorChoice) -> Self {
                StandardStream(Box::new(std::io::stderr()))
            }
            pub fn stdout(_: ColorChoice) -> Self {
                StandardStream(Box::new(std::io::stdout()))
            }
        }
        impl std::io::Write for StandardStream {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                self.0.write(b)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                self.0.flush()
            }
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct Config {}
    #[derive(Debug, Clone, Default)]
    pub struct Styles {}
    pub struct StylesWriter<'a, W> {
        w: W,
        _styles: &'a Styles,
    }
    impl<'a, W> StylesWriter<'a, W> {
        pub fn new(w: W, styles: &'a Styles) -> Self {
            StylesWriter { w, _styles: styles }
        }
    }
    pub fn emit_to_write_style<W: Write, N: std::fmt::Display, S: AsRef<str>>(
        w: &mut StylesWriter<'_, W>,
        _config: &Config,
        files: &SimpleFiles<N, S>,
        d: &Diagnostic<usize>,
    ) -> Result<(), Error> {
        let mut out = String::new();
        for (i, l) in d.labels.iter().enumerate() {
            let (name, source) = files.files.get(l.file_id).ok_or(Error::FileMissing)?;
            let _ = source;
            let what = if i == 0 { "DIAG" } else { "LABEL" };
            out += &format!(
                "{what} {:?}\t{}\t{:?}\t{name}\t{}..{}\n",
                d.severity,
                d.code.as_deref().unwrap_or(""),
                if i == 0 { &d.message } else { &l.message },
                l.range.start,
                l.range.end
            );
        }
        w.w.write_all(out.as_bytes()).map_err(Error::Io)
    }
}
