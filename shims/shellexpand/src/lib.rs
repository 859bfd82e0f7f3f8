//! `~` and `~/...` expanded to the home directory.
use std::borrow::Cow;
pub fn tilde<S: AsRef<str> + ?Sized>(s: &S) -> Cow<'_, str> {
    let s = s.as_ref();
    if let Some(rest) = s.strip_prefix('~') {
        if rest.is_empty() || rest.starts_with('/') {
            if let Ok(home) = std::env::var("HOME") {
                return format!("{home}{rest}").into();
            }
        }
    }
    s.into()
}
