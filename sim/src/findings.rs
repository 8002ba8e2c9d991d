//! The committed list of known findings (and of what was repaired).
use crate::props;
use model::json;

pub struct Known {
    pub prop: String,
    pub site: String,
    pub text: String,
    pub what: String,
}
pub fn dir() -> std::path::PathBuf {
    match std::env::var("VERIF_DIR") {
        Ok(d) => d.into(),
        Err(_) => std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}
/// `known: property=C05 site=FILE:LINE text="..." what fails`
pub fn load() -> Vec<Known> {
    let t = std::fs::read_to_string(dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (prop, r) = match r.split_once(" site=") {
                Some(x) => x,
                None => continue,
            };
            let (site, r) = match r.split_once(" text=") {
                Some(x) => x,
                None => continue,
            };
            // a JSON string, then the rest of the line
            let mut end = None;
            let mut esc = false;
            for (i, c) in r.char_indices().skip(1) {
                if esc {
                    esc = false;
                } else if c == '\\' {
                    esc = true;
                } else if c == '"' {
                    end = Some(i);
                    break;
                }
            }
            let end = match end {
                Some(e) => e,
                None => continue,
            };
            let text = match json::parse(&r[..end + 1]) {
                Ok(j) => j.st().to_string(),
                Err(_) => continue,
            };
            v.push(Known { prop: prop.into(), site: site.into(), text, what: r[end + 1..].trim().into() });
        }
    }
    v
}
pub fn install() {
    let v = load();
    props::KNOWN.with(|k| *k.borrow_mut() = v.iter().map(|k| (k.prop.clone(), k.site.clone())).collect());
}
/// Which of the listed findings still show, tried on the input the list names.
pub fn reproduce(prop: &str) -> Vec<String> {
    let mut out = vec![];
    for k in load().into_iter().filter(|k| k.prop == prop) {
        crate::sim::begin(props::budget(k.text.len()), vec![]);
        let evs = crate::drive::observe(&k.text, crate::drive::cfg(false, false, 0), k.text.len() + 8);
        crate::sim::pause();
        if let Some(crate::sim::Panic::Tokenizer(site, _)) = crate::drive::panic_of(&evs) {
            if *site == k.site {
                out.push(format!("{} ({})", k.what, k.site));
            }
        }
    }
    out
}
