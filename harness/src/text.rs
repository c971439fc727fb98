//! The character alphabet shared with the specification
pub fn chr(code: i64) -> char {
    match code {
        128 => 'é',
        129 => '你',
        130 => '😀',
        131 => '\u{feff}',
        c => char::from(c as u8),
    }
}
pub fn code(c: char) -> i64 {
    match c {
        'é' => 128,
        '你' => 129,
        '😀' => 130,
        '\u{feff}' => 131,
        c if (c as u32) < 128 => c as i64,
        _ => 255,
    }
}
pub fn string(v: &serde_json::Value) -> String {
    v.as_array().map_or(String::new(), |a| {
        a.iter().map(|c| chr(c.as_i64().unwrap() % 256)).collect()
    })
}
pub fn tagged(v: &serde_json::Value) -> Vec<(i64, char)> {
    v.as_array().map_or(vec![], |a| {
        a.iter()
            .map(|c| {
                let c = c.as_i64().unwrap();
                (c / 256, chr(c % 256))
            })
            .collect()
    })
}
pub fn plain(t: &[(i64, char)]) -> String {
    t.iter().map(|x| x.1).collect()
}
pub fn strings(v: &serde_json::Value) -> std::collections::BTreeSet<String> {
    v.as_array().unwrap().iter().map(string).collect()
}
