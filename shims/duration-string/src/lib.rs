//! Durations written as `10ms`, `2s`, `3m`.
use std::time::Duration;
pub type Result<T> = std::result::Result<T, String>;
#[derive(Debug, Clone, Copy)]
pub struct DurationString(Duration);
impl DurationString {
    pub fn from_string(s: String) -> Result<Self> {
        let at = s.find(|c: char| !c.is_ascii_digit()).ok_or("missing unit")?;
        let n: u64 = s[..at].parse().map_err(|_| "missing number")?;
        Ok(DurationString(match &s[at..] {
            "ns" => Duration::from_nanos(n),
            "us" => Duration::from_micros(n),
            "ms" => Duration::from_millis(n),
            "s" => Duration::from_secs(n),
            "m" => Duration::from_secs(n * 60),
            "h" => Duration::from_secs(n * 3600),
            _ => return Err("unknown unit".into()),
        }))
    }
}
impl From<DurationString> for Duration {
    fn from(d: DurationString) -> Duration {
        d.0
    }
}
