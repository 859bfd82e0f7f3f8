use std::{fmt, path::PathBuf};
#[derive(Debug)]
pub struct Expect {
    pub file: &'static str,
    pub line: u32,
    pub data: &'static str,
    pub indent: bool,
}
#[derive(Debug)]
pub struct ExpectFile {
    pub path: PathBuf,
    pub position: &'static str,
}
#[macro_export]
macro_rules! expect {
    [$data:literal] => { $crate::expect![[$data]] };
    [[$data:literal]] => { $crate::Expect { file: file!(), line: line!(), data: $data, indent: true } };
    [] => { $crate::expect![[""]] };
    [[]] => { $crate::expect![[""]] };
}
#[macro_export]
macro_rules! expect_file {
    [$path:expr] => { $crate::ExpectFile { path: std::path::PathBuf::from($path), position: file!() } };
}
impl Expect {
    pub fn assert_eq(&self, actual: &str) {
        let e = self.trimmed();
        if e != actual {
            panic!("expect test at {}:{}\n---- expected\n{e}\n---- actual\n{actual}\n----", self.file, self.line);
        }
    }
    pub fn assert_debug_eq(&self, actual: &impl fmt::Debug) {
        self.assert_eq(&format!("{actual:#?}\n"));
    }
    pub fn indent(&mut self, yes: bool) {
        self.indent = yes;
    }
    pub fn data(&self) -> &str {
        self.data
    }
    fn trimmed(&self) -> String {
        if !self.indent {
            return self.data.to_owned();
        }
        trim_indent(self.data)
    }
}
impl ExpectFile {
    fn abs(&self) -> PathBuf {
        if self.path.is_absolute() {
            self.path.clone()
        } else {
            std::path::Path::new(self.position).parent().unwrap().join(&self.path)
        }
    }
    pub fn data(&self) -> String {
        std::fs::read_to_string(self.abs()).unwrap_or_default().replace("\r\n", "\n")
    }
    pub fn assert_eq(&self, actual: &str) {
        let e = self.data();
        if e != actual {
            panic!("expect_file {}\n---- expected\n{e}\n---- actual\n{actual}\n----", self.path.display());
        }
    }
    pub fn assert_debug_eq(&self, actual: &impl fmt::Debug) {
        self.assert_eq(&format!("{actual:#?}\n"));
    }
}
fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') {
        text = &text[1..];
    }
    let indent = text
        .lines()
        .filter(|it| !it.trim().is_empty())
        .map(|it| it.len() - it.trim_start().len())
        .min()
        .unwrap_or(0);
    text.split_inclusive('\n')
        .map(|line| if line.len() <= indent { line.trim_start_matches(' ') } else { &line[indent..] })
        .collect()
}
