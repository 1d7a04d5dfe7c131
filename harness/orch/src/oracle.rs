//! Named oracles for answers that need more than a comparison.
use crate::spec::unhex;
use serde_json::Value;

pub fn check(name: &str, data: &Value, got: &str) -> Result<(), String> {
    match name {
        // hex text that contains the integer as a whole word
        "hex_has_int" => {
            let want = data.as_str().unwrap();
            let ok = got.len() % 2 == 0 && got.bytes().all(|b| b.is_ascii_hexdigit()) && {
                let t = String::from_utf8_lossy(&unhex(got)).into_owned();
                t.split(|c: char| !(c.is_ascii_digit() || c == '-')).any(|w| w == want)
            };
            if ok { Ok(()) } else { Err(format!("text showing {}", want)) }
        }
        "display" => crate::props_doc::check_display(data, got),
        "wild" => crate::props_wild::check(data, got),
        "docs" => crate::props_doc::check_docs(data, got),
        _ => Err(format!("unknown oracle {}", name)),
    }
}
