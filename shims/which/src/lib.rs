use std::path::PathBuf;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    CannotFindBinaryPath,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cannot find binary path")
    }
}
impl std::error::Error for Error {}
pub fn which(name: impl AsRef<std::ffi::OsStr>) -> Result<PathBuf, Error> {
    use std::os::unix::fs::PermissionsExt;
    std::env::var_os("PATH")
        .iter()
        .flat_map(std::env::split_paths)
        .map(|dir| dir.join(name.as_ref()))
        .find(|p| p.metadata().is_ok_and(|m| m.is_file() && m.permissions().mode() & 0o111 != 0))
        .ok_or(Error::CannotFindBinaryPath)
}
