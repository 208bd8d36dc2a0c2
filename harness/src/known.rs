//! The committed list of known findings: genuine defects of the code under
//! test which are recorded rather than repaired. Each is keyed by the name of
//! the directed case that shows it, so that any other failure still counts.

use std::path::Path;

pub struct Known { pub key: String, pub what: String }

/// Lines are `known: property=<id> key=<fixed case name> <what fails>`; lines
/// starting with `fixed:` and comments suppress nothing.
pub fn load(verif: &Path, id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue; };
        let mut it = rest.splitn(3, ' ');
        let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if p.strip_prefix("property=") == Some(id) {
            if let Some(k) = k.strip_prefix("key=") {
                out.push(Known {key: k.into(), what: w.into()});
            }
        }
    }
    out
}
