mod content;
mod edit;
mod json;
mod kind;
mod marks;
mod md;
mod reason;
mod tree;

use crate::engine::Property;

pub fn all() -> &'static [Property] {
    static ALL: std::sync::OnceLock<Vec<Property>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        v.extend(tree::props());
        v.extend(edit::props());
        v.extend(marks::props());
        v.extend(content::props());
        v.extend(json::props());
        v.extend(kind::props());
        v.extend(md::props());
        v.extend(reason::props());
        v.sort_by_key(|p: &Property| p.id);
        v
    })
}

/// Return an error from a check
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

/// Specific inputs on which the code under test is known, or was once known, to break a property. The
/// function returns what fails, or `None` where it holds. A failing one that known-findings.txt does not
/// list under its key is a violation.
pub type Probe = (&'static str, &'static str, fn() -> Option<String>);
pub fn probes() -> &'static [Probe] {
    &[
        ("C08", "image-marks", kind::probe_add_image),
        ("C08", "hard-break-marks", kind::probe_add_break),
        ("C14", "image-marks", kind::probe_json_image),
        ("C14", "hard-break-marks", kind::probe_json_break),
        ("C20", "image-marks", kind::probe_import_image),
    ]
}
