//! Semantic version precedence, written from the specification (semver.org), independent of the
//! library the contracts use.
#[derive(Debug, PartialEq, Eq)]
struct Ver {
    core: [u64; 3],
    pre: Vec<Result<u64, String>>,
}
fn numeric(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    s.parse().ok()
}
fn parse(s: &str) -> Option<Ver> {
    let (main, build) = match s.split_once('+') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    if let Some(b) = build {
        if b.split('.').any(|i| i.is_empty() || !i.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-')) {
            return None;
        }
    }
    let (core, pre) = match main.split_once('-') {
        Some((a, b)) => (a, Some(b)),
        None => (main, None),
    };
    let v: Vec<&str> = core.split('.').collect();
    if v.len() != 3 {
        return None;
    }
    let mut c = [0; 3];
    for i in 0..3 {
        c[i] = numeric(v[i])?;
    }
    let mut p = vec![];
    if let Some(pre) = pre {
        for id in pre.split('.') {
            if id.is_empty() || !id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') {
                return None;
            }
            if id.bytes().all(|c| c.is_ascii_digit()) {
                p.push(Ok(numeric(id)?));
            } else {
                p.push(Err(id.to_string()));
            }
        }
    }
    Some(Ver { core: c, pre: p })
}
/// precedence of a against b; None when one of them is not a version
pub fn rel(a: &str, b: &str) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    let (a, b) = (parse(a)?, parse(b)?);
    let c = a.core.cmp(&b.core);
    if c != Equal {
        return Some(c);
    }
    Some(match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, true) => Equal,
        (true, false) => Greater,
        (false, true) => Less,
        _ => {
            let mut r = Equal;
            for i in 0..a.pre.len().max(b.pre.len()) {
                r = match (a.pre.get(i), b.pre.get(i)) {
                    (None, _) => Less,
                    (_, None) => Greater,
                    (Some(Ok(x)), Some(Ok(y))) => x.cmp(y),
                    (Some(Ok(_)), Some(Err(_))) => Less,
                    (Some(Err(_)), Some(Ok(_))) => Greater,
                    (Some(Err(x)), Some(Err(y))) => x.cmp(y),
                };
                if r != Equal {
                    break;
                }
            }
            r
        }
    })
}
pub fn older(a: &str, b: &str) -> Option<bool> {
    rel(a, b).map(|r| r == std::cmp::Ordering::Less)
}
