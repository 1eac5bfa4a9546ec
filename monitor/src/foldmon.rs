//! Monitors for FOLD files (C24-C26): generated documents through the real `Fold::from_file`, compared
//! with the values the generator wrote.
use crate::cx::{CaseResult, Cx, Stop};
use crate::rng::Rng;
use crate::Prop;
use kami::fold::fold::Fold;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(f32),
    Str(String),
    Strs(Vec<String>),
    Nums(Vec<f32>),
    NumLists(Vec<Vec<f32>>),
    IntLists(Vec<Vec<i32>>),
    Triples(Vec<[i32; 3]>),
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Num,
    Str,
    Strs,
    Nums,
    NumLists,
    IntLists,
    Triples,
}

const KEYS: [(&str, Kind); 23] = [
    ("file_spec", Kind::Num),
    ("file_creator", Kind::Str),
    ("file_author", Kind::Str),
    ("file_title", Kind::Str),
    ("file_description", Kind::Str),
    ("file_classes", Kind::Strs),
    ("frame_author", Kind::Str),
    ("frame_title", Kind::Str),
    ("frame_description", Kind::Str),
    ("frame_classes", Kind::Strs),
    ("frame_attributes", Kind::Strs),
    ("frame_unit", Kind::Str),
    ("vertices_coords", Kind::NumLists),
    ("vertices_vertices", Kind::IntLists),
    ("vertices_faces", Kind::IntLists),
    ("edges_vertices", Kind::IntLists),
    ("edges_faces", Kind::IntLists),
    ("edges_assignment", Kind::Strs),
    ("edges_foldAngles", Kind::Nums),
    ("edges_lengths", Kind::Nums),
    ("faces_vertices", Kind::IntLists),
    ("faces_edges", Kind::IntLists),
    ("faceOrders", Kind::Triples),
];
// edgeOrders is the 24th; kept apart only because arrays of mixed length read badly.
const LAST: (&str, Kind) = ("edgeOrders", Kind::Triples);

fn keys() -> Vec<(&'static str, Kind)> {
    let mut v = KEYS.to_vec();
    v.push(LAST);
    v
}

fn field(f: &Fold, key: &str) -> Val {
    match key {
        "file_spec" => Val::Num(f.file_spec as f32),
        "file_creator" => Val::Str(f.file_creator.clone()),
        "file_author" => Val::Str(f.file_author.clone()),
        "file_title" => Val::Str(f.file_title.clone()),
        "file_description" => Val::Str(f.file_description.clone()),
        "file_classes" => Val::Strs(f.file_classes.clone()),
        "frame_author" => Val::Str(f.frame_author.clone()),
        "frame_title" => Val::Str(f.frame_title.clone()),
        "frame_description" => Val::Str(f.frame_description.clone()),
        "frame_classes" => Val::Strs(f.frame_classes.clone()),
        "frame_attributes" => Val::Strs(f.frame_attributes.clone()),
        "frame_unit" => Val::Str(f.frame_unit.clone()),
        "vertices_coords" => Val::NumLists(f.vertices_coords.clone()),
        "vertices_vertices" => Val::IntLists(f.vertices_vertices.clone()),
        "vertices_faces" => Val::IntLists(f.vertices_faces.clone()),
        "edges_vertices" => Val::IntLists(f.edges_vertices.clone()),
        "edges_faces" => Val::IntLists(f.edges_faces.clone()),
        "edges_assignment" => Val::Strs(f.edges_assignment.clone()),
        "edges_foldAngles" => Val::Nums(f.edges_foldangles.clone()),
        "edges_lengths" => Val::Nums(f.edges_lengths.clone()),
        "faces_vertices" => Val::IntLists(f.faces_vertices.clone()),
        "faces_edges" => Val::IntLists(f.faces_edges.clone()),
        "faceOrders" => Val::Triples(f.faceorders.clone()),
        _ => Val::Triples(f.edgeorders.clone()),
    }
}

fn set_field(f: &mut Fold, key: &str, v: Val) {
    match (key, v) {
        ("file_spec", Val::Num(x)) => f.file_spec = x as _,
        ("file_creator", Val::Str(x)) => f.file_creator = x,
        ("file_author", Val::Str(x)) => f.file_author = x,
        ("file_title", Val::Str(x)) => f.file_title = x,
        ("file_description", Val::Str(x)) => f.file_description = x,
        ("file_classes", Val::Strs(x)) => f.file_classes = x,
        ("frame_author", Val::Str(x)) => f.frame_author = x,
        ("frame_title", Val::Str(x)) => f.frame_title = x,
        ("frame_description", Val::Str(x)) => f.frame_description = x,
        ("frame_classes", Val::Strs(x)) => f.frame_classes = x,
        ("frame_attributes", Val::Strs(x)) => f.frame_attributes = x,
        ("frame_unit", Val::Str(x)) => f.frame_unit = x,
        ("vertices_coords", Val::NumLists(x)) => f.vertices_coords = x,
        ("vertices_vertices", Val::IntLists(x)) => f.vertices_vertices = x,
        ("vertices_faces", Val::IntLists(x)) => f.vertices_faces = x,
        ("edges_vertices", Val::IntLists(x)) => f.edges_vertices = x,
        ("edges_faces", Val::IntLists(x)) => f.edges_faces = x,
        ("edges_assignment", Val::Strs(x)) => f.edges_assignment = x,
        ("edges_foldAngles", Val::Nums(x)) => f.edges_foldangles = x,
        ("edges_lengths", Val::Nums(x)) => f.edges_lengths = x,
        ("faces_vertices", Val::IntLists(x)) => f.faces_vertices = x,
        ("faces_edges", Val::IntLists(x)) => f.faces_edges = x,
        ("faceOrders", Val::Triples(x)) => f.faceorders = x,
        ("edgeOrders", Val::Triples(x)) => f.edgeorders = x,
        (k, _) => panic!("kind of {}", k),
    }
}

fn empty(k: Kind) -> Val {
    match k {
        Kind::Num => Val::Num(0.0),
        Kind::Str => Val::Str(String::new()),
        Kind::Strs => Val::Strs(vec![]),
        Kind::Nums => Val::Nums(vec![]),
        Kind::NumLists => Val::NumLists(vec![]),
        Kind::IntLists => Val::IntLists(vec![]),
        Kind::Triples => Val::Triples(vec![]),
    }
}

/// Equal up to one unit in the last place of f32 (`exact`: equal).
fn num_same(a: f32, b: f32, exact: bool) -> bool {
    if a == b {
        return true;
    }
    if exact || !a.is_finite() || !b.is_finite() {
        return false;
    }
    let d = (a as f64 - b as f64).abs();
    d <= (a.abs().max(b.abs()) as f64) * 1.2e-7 || d <= 1.5e-45
}

fn same(a: &Val, b: &Val, exact: bool) -> bool {
    let nums = |x: &[f32], y: &[f32]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| num_same(*p, *q, exact));
    match (a, b) {
        (Val::Num(x), Val::Num(y)) => num_same(*x, *y, exact),
        (Val::Nums(x), Val::Nums(y)) => nums(x, y),
        (Val::NumLists(x), Val::NumLists(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| nums(p, q)),
        _ => a == b,
    }
}

// ---------------------------------------------------------------- generators

fn gen_string(r: &mut Rng) -> String {
    if r.chance(0.15) {
        return String::new();
    }
    if r.chance(0.15) {
        return r.pick(&["M", "V", "B", "F", "U", "2D", "3D", "creasePattern", "unit", "Robert J. Lang", "折り紙"]).to_string();
    }
    if r.chance(0.2) {
        // pieces that mean something outside a string: here they are text
        let n = if r.chance(0.004) && !cfg!(miri) { r.below(15_000) } else { 1 + r.below(4) };
        let keys = keys();
        return (0..n)
            .map(|_| match r.below(8) {
                0 => r.pick(&keys).0.to_string(),
                1 => format!("\"{}\":", r.pick(&keys).0),
                2 => "\u{feff}".into(),
                3 => r.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2003}", "\u{85}"]).to_string(),
                _ => r
                    .pick(&[
                        "//", "// x", "/*", "*/", "/* x */", "#", "--", ";", "<!--", "null", "true", "NaN", "nan", "Infinity", "-inf", "0", "-0", "1e5", "1.", "0x10", "undefined", "\\u0041", "\\n", "\\", "\\\\", "\\\"",
                        "\"", "''", "\"\"", "{}", "[]", "[[", "]]", "},{", "],[", ",", ",,", ",]", ",}", ":", "%s", "$x", "${x}", "{0}", "&amp;", "http://a.b/c?d=e#f", "C:\\dir", "a/b", "../..", "\r", "\u{0}", "e\u{301}",
                        "\u{e9}", "I", "İ", "ſ", "ﬁ", "👩\u{200d}👧",
                    ])
                    .to_string(),
            })
            .collect();
    }
    let n = 1 + r.below(if r.chance(0.05) { 400 } else { 14 });
    (0..n)
        .map(|_| match r.below(9) {
            0 => *r.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{0}', '\u{1f}', '\u{7f}']),
            1 => *r.pick(&['é', 'ß', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '折', '\u{d7ff}', '\u{e000}']),
            2 => *r.pick(&['😀', '\u{10ffff}', '\u{10000}', '𝒳']),
            3 => *r.pick(&['{', '}', '[', ']', ':', ',', ' ', '\'']),
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => *r.pick(&[0.0, 0.0, 0.0, -0.0]),
        1 => r.int(-10, 10) as f32,
        2 => r.int(-1_000_000_000, 1_000_000_000) as f32,
        3 => r.range(-1.0, 1.0) as f32,
        4 => r.range(-1000.0, 1000.0) as f32,
        5 => (r.int(-4000, 4000) as f32) / 16.0,
        6 => r.signed_log(1e-30, 1e30) as f32,
        _ => loop {
            let f = f32::from_bits(r.u64() as u32);
            if f.is_finite() {
                break f;
            }
        },
    }
}

fn gen_i32(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => *r.pick(&[i32::MIN, i32::MAX, -1, 0, 1, 255, 256, 65535, 65536, -128]),
        1 => r.u64() as i32,
        _ => r.int(0, 40) as i32,
    }
}

fn list_len(r: &mut Rng, big: bool) -> usize {
    match r.below(12) {
        0 | 1 => 0,
        2 if big && r.chance(0.1) && !cfg!(miri) => match r.below(60) {
            0 => 65_500 + r.below(100),
            n if n < 30 => *r.pick(&[127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]),
            _ => 3000 + r.below(9000),
        },
        3 if !big && r.chance(0.01) && !cfg!(miri) => 250 + r.below(20),
        3 => 10 + r.below(60),
        _ => 1 + r.below(6),
    }
}

fn gen_val(r: &mut Rng, k: Kind) -> Val {
    let n = list_len(r, true);
    match k {
        Kind::Num => Val::Num(match r.below(4) {
            0 => 1.0,
            1 => 1.1,
            2 => 1.2,
            _ => gen_f32(r),
        }),
        Kind::Str => Val::Str(gen_string(r)),
        Kind::Strs => Val::Strs((0..n.min(if r.chance(0.1) { 1100 } else { 80 })).map(|_| gen_string(r)).collect()),
        Kind::Nums => Val::Nums((0..n).map(|_| gen_f32(r)).collect()),
        Kind::NumLists => Val::NumLists(
            (0..n)
                .map(|_| {
                    let m = if r.chance(0.8) { 2 + r.below(2) } else { list_len(r, false) };
                    (0..m).map(|_| gen_f32(r)).collect()
                })
                .collect(),
        ),
        Kind::IntLists => Val::IntLists(
            (0..n)
                .map(|_| {
                    let m = if r.chance(0.6) { 2 } else { list_len(r, false) };
                    (0..m).map(|_| gen_i32(r)).collect()
                })
                .collect(),
        ),
        Kind::Triples => Val::Triples((0..n).map(|_| [gen_i32(r), gen_i32(r), r.int(-1, 1) as i32]).collect()),
    }
}

// ---------------------------------------------------------------- writing JSON

fn ws(r: &mut Rng, style: usize) -> String {
    match style {
        0 => String::new(),
        1 => " ".to_string(),
        _ => {
            let n = r.below(4);
            (0..n).map(|_| *r.pick(&[' ', '\n', '\t', '\r', ' '])).collect()
        }
    }
}

fn w_str(r: &mut Rng, s: &str) -> String {
    let mode = r.below(3);
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || (mode == 1 && r.chance(0.3)) || mode == 2 {
            let short = match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '/' => "\\/",
                '\n' => "\\n",
                '\r' => "\\r",
                '\t' => "\\t",
                '\u{8}' => "\\b",
                '\u{c}' => "\\f",
                _ => "",
            };
            if !short.is_empty() && r.chance(0.7) {
                o.push_str(short);
            } else {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.chance(0.5) {
                        o.push_str(&format!("\\u{:04x}", u));
                    } else {
                        o.push_str(&format!("\\u{:04X}", u));
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn w_num(r: &mut Rng, x: f32) -> String {
    if x == x.trunc() && x.abs() < 1e6 && r.chance(0.6) && !(x == 0.0 && x.is_sign_negative()) {
        return format!("{}", x as i64);
    }
    match r.below(4) {
        0 => {
            let s = format!("{:e}", x);
            if r.chance(0.5) {
                s.replace('e', if s.contains("e-") { "E" } else { "E+" })
            } else {
                s
            }
        }
        1 => format!("{:?}", x),
        // f32's Display never uses an exponent
        2 if x.abs() < 1e18 && (x.abs() > 1e-12 || x == 0.0) => format!("{}", x),
        // every digit of the f64
        _ => format!("{:?}", x as f64),
    }
}

fn w_list(r: &mut Rng, style: usize, items: Vec<String>) -> String {
    let mut o = String::from("[");
    o.push_str(&ws(r, style));
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            o.push(',');
            o.push_str(&ws(r, style));
        }
        o.push_str(it);
        o.push_str(&ws(r, style));
    }
    o.push(']');
    o
}

fn w_val(r: &mut Rng, style: usize, v: &Val) -> String {
    match v {
        Val::Num(x) => w_num(r, *x),
        Val::Str(s) => w_str(r, s),
        Val::Strs(l) => {
            let it = l.iter().map(|s| w_str(r, s)).collect();
            w_list(r, style, it)
        }
        Val::Nums(l) => {
            let it = l.iter().map(|x| w_num(r, *x)).collect();
            w_list(r, style, it)
        }
        Val::NumLists(l) => {
            let it = l
                .iter()
                .map(|m| {
                    let it = m.iter().map(|x| w_num(r, *x)).collect();
                    w_list(r, style, it)
                })
                .collect();
            w_list(r, style, it)
        }
        Val::IntLists(l) => {
            let it = l.iter().map(|m| w_list(r, style, m.iter().map(|x| x.to_string()).collect())).collect();
            w_list(r, style, it)
        }
        Val::Triples(l) => {
            let it = l.iter().map(|m| w_list(r, style, m.iter().map(|x| x.to_string()).collect())).collect();
            w_list(r, style, it)
        }
    }
}

fn w_any(r: &mut Rng, depth: usize) -> String {
    match r.below(if depth > 5 { 6 } else { 8 }) {
        0 => "null".into(),
        1 => "true".into(),
        2 => "false".into(),
        3 => {
            let x = gen_f32(r);
            w_num(r, x)
        }
        4 => {
            let s = gen_string(r);
            w_str(r, &s)
        }
        5 => r.int(-1_000_000_000_000, 1_000_000_000_000).to_string(),
        6 => {
            if depth == 0 && r.chance(0.05) {
                // many levels (the reader allows 128 of them)
                let n = 1 + r.below(100);
                let (open, close) = *r.pick(&[("[", "]"), ("{\"x\":", "}"), ("[[", "]]"), ("[1,", "]")]);
                let n = n / (1 + (open == "[[") as usize);
                return format!("{}0{}", open.repeat(n), close.repeat(n));
            }
            let n = r.below(4);
            let it = (0..n).map(|_| w_any(r, depth + 1)).collect();
            w_list(r, 2, it)
        }
        _ => {
            let n = r.below(4);
            let it: Vec<String> = (0..n)
                .map(|_| {
                    // inside a nested object even supported names mean nothing
                    let k = if r.chance(0.4) { r.pick(&keys()).0.to_string() } else { gen_string(r) };
                    format!("{}:{}", w_str(r, &k), w_any(r, depth + 1))
                })
                .collect();
            format!("{{{}}}", it.join(","))
        }
    }
}

const NEAR_MISSES: [&str; 22] = [
    "file_frames", "edges_foldangles", "edgesFoldAngles", "faceorders", "edgeorders", "face_orders", "file_Spec", "FILE_TITLE", "vertices_coord",
    "vertices_coords ", "edges_vertices2", "frame_inherit", "frame_parent", "faces_faces", "faces_vertice", "title", "author", "file-creator", "", "Fold",
    "vertices_edges", "kami:extra",
];

#[derive(Clone)]
struct Doc {
    values: Vec<(&'static str, Val)>,
    text: String,
    unknown: usize,
    /// Byte ranges of the values of supported keys in the text.
    spans: Vec<(usize, usize)>,
}

fn gen_doc(r: &mut Rng) -> Doc {
    let mut ks = keys();
    r.shuffle(&mut ks);
    let keep = match r.below(6) {
        0 => ks.len(),
        1 => r.below(3),
        _ => r.below(ks.len() + 1),
    };
    ks.truncate(keep);
    let style = r.below(3);
    let mut items: Vec<(String, Option<(&'static str, Val)>)> = vec![];
    for (k, kind) in ks {
        let v = gen_val(r, kind);
        items.push((k.to_string(), Some((k, v))));
    }
    let unknown = if r.chance(0.6) { r.below(6) } else { 0 };
    for _ in 0..unknown {
        let k = if r.chance(0.7) { r.pick(&NEAR_MISSES).to_string() } else { format!("{}:x", gen_string(r)) };
        items.push((k, None));
    }
    r.shuffle(&mut items);
    // Now and then a text so long that the document reaches a size at which readers change buffers
    let target = if r.chance(0.02) && !cfg!(miri) {
        let sizes: [usize; 9] = [512, 1024, 4096, 8192, 16_384, 32_768, 65_536, 131_072, 1 << 20];
        let n = if r.chance(0.95) { r.below(7) } else { r.below(9) };
        Some(sizes[n] as i64 + r.int(-40, 8))
    } else {
        None
    };
    let mut text = ws(r, style);
    text.push('{');
    text.push_str(&ws(r, style));
    let mut values = vec![];
    let mut spans = vec![];
    for (i, (k, v)) in items.into_iter().enumerate() {
        if i > 0 {
            text.push(',');
            text.push_str(&ws(r, style));
        }
        // escaping in a key changes nothing about which key it is
        text.push_str(&if r.chance(0.1) { w_str(r, &k) } else { format!("{:?}", k).replace("\\'", "'") }.as_str().to_string());
        text.push_str(&ws(r, style));
        text.push(':');
        text.push_str(&ws(r, style));
        let from = text.len();
        match v {
            Some((key, v)) => {
                text.push_str(&w_val(r, style, &v));
                spans.push((from, text.len()));
                values.push((key, v));
            }
            None => text.push_str(&w_any(r, 0)),
        }
        text.push_str(&ws(r, style));
    }
    if let Some(target) = target {
        let key = "file_description";
        let room = target - text.len() as i64 - 40;
        if room > 0 && values.iter().all(|(k, _): &(&str, Val)| *k != key) {
            if text.trim().len() > 1 {
                text.push(',');
            }
            text.push_str(&format!("\"{}\": ", key));
            let unit = *r.pick(&["a", "é", "折", "😀", " ", "//", "a😀"]);
            let mut t = "x".repeat(r.below(4));
            t.push_str(&unit.repeat(room as usize / unit.len()));
            let from = text.len();
            text.push_str(&format!("\"{}\"", t));
            spans.push((from, text.len()));
            values.push((key, Val::Str(t)));
        }
    }
    text.push('}');
    Doc { values, text, unknown, spans }
}

/// `{:?}` of a Rust string is not JSON for control characters: keys that need escapes go through w_str.
fn fix_keys(d: Doc) -> Option<Doc> {
    if grammatical(d.text.as_bytes()) {
        Some(d)
    } else {
        None
    }
}

fn doc(r: &mut Rng) -> Doc {
    loop {
        if let Some(d) = fix_keys(gen_doc(r)) {
            if !cfg!(miri) || d.text.len() < 400 {
                return d;
            }
        }
    }
}

// ---------------------------------------------------------------- the JSON grammar (RFC 8259), as an oracle

/// Is the text one JSON value with nothing but white space around it?
pub fn grammatical(b: &[u8]) -> bool {
    if std::str::from_utf8(b).is_err() {
        return false;
    }
    let mut i = 0;
    skip(b, &mut i);
    if !value(b, &mut i, 0) {
        return false;
    }
    skip(b, &mut i);
    i == b.len()
}

fn skip(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] == b' ' || b[*i] == b'\n' || b[*i] == b'\r' || b[*i] == b'\t') {
        *i += 1;
    }
}

fn word(b: &[u8], i: &mut usize, w: &[u8]) -> bool {
    if b[*i..].starts_with(w) {
        *i += w.len();
        return true;
    }
    false
}

fn string(b: &[u8], i: &mut usize) -> bool {
    if *i >= b.len() || b[*i] != b'"' {
        return false;
    }
    *i += 1;
    while *i < b.len() {
        match b[*i] {
            b'"' => {
                *i += 1;
                return true;
            }
            b'\\' => {
                *i += 1;
                if *i >= b.len() {
                    return false;
                }
                match b[*i] {
                    b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => *i += 1,
                    b'u' => {
                        *i += 1;
                        for _ in 0..4 {
                            if *i >= b.len() || !b[*i].is_ascii_hexdigit() {
                                return false;
                            }
                            *i += 1;
                        }
                    }
                    _ => return false,
                }
            }
            c if c < 0x20 => return false,
            _ => *i += 1,
        }
    }
    false
}

fn digits(b: &[u8], i: &mut usize) -> bool {
    let from = *i;
    while *i < b.len() && b[*i].is_ascii_digit() {
        *i += 1;
    }
    *i > from
}

fn number(b: &[u8], i: &mut usize) -> bool {
    if *i < b.len() && b[*i] == b'-' {
        *i += 1;
    }
    if *i < b.len() && b[*i] == b'0' {
        *i += 1;
    } else if !digits(b, i) {
        return false;
    }
    if *i < b.len() && b[*i] == b'.' {
        *i += 1;
        if !digits(b, i) {
            return false;
        }
    }
    if *i < b.len() && (b[*i] == b'e' || b[*i] == b'E') {
        *i += 1;
        if *i < b.len() && (b[*i] == b'+' || b[*i] == b'-') {
            *i += 1;
        }
        if !digits(b, i) {
            return false;
        }
    }
    true
}

fn value(b: &[u8], i: &mut usize, depth: usize) -> bool {
    if *i >= b.len() || depth > 500 {
        return false;
    }
    match b[*i] {
        b'{' | b'[' => {
            let object = b[*i] == b'{';
            let close = if object { b'}' } else { b']' };
            *i += 1;
            skip(b, i);
            if *i < b.len() && b[*i] == close {
                *i += 1;
                return true;
            }
            loop {
                if object {
                    skip(b, i);
                    if !string(b, i) {
                        return false;
                    }
                    skip(b, i);
                    if *i >= b.len() || b[*i] != b':' {
                        return false;
                    }
                    *i += 1;
                }
                skip(b, i);
                if !value(b, i, depth + 1) {
                    return false;
                }
                skip(b, i);
                if *i >= b.len() {
                    return false;
                }
                if b[*i] == close {
                    *i += 1;
                    return true;
                }
                if b[*i] != b',' {
                    return false;
                }
                *i += 1;
            }
        }
        b'"' => string(b, i),
        b't' => word(b, i, b"true"),
        b'f' => word(b, i, b"false"),
        b'n' => word(b, i, b"null"),
        _ => number(b, i),
    }
}

// ---------------------------------------------------------------- a second reader, as an oracle for edited documents

#[derive(Clone, Debug, PartialEq)]
enum Json {
    Null,
    Bool,
    Num(String),
    /// `None`: escapes that stand for no text (half of a surrogate pair).
    Str(Option<String>),
    List(Vec<Json>),
    Map(Vec<(Option<String>, Json)>),
}

/// The value in a text that `grammatical` accepted.
fn read(b: &[u8]) -> Json {
    let mut i = 0;
    skip(b, &mut i);
    read_value(b, &mut i)
}

fn read_string(b: &[u8], i: &mut usize) -> Option<String> {
    let from = *i;
    string(b, i);
    let b = &b[from + 1..*i - 1];
    let mut units: Vec<u16> = vec![];
    let text = std::str::from_utf8(b).unwrap();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            let mut buf = [0u16; 2];
            units.extend_from_slice(c.encode_utf16(&mut buf));
            continue;
        }
        units.push(match it.next().unwrap() {
            'b' => 8,
            'f' => 12,
            'n' => 10,
            'r' => 13,
            't' => 9,
            'u' => (0..4).fold(0, |a, _| a * 16 + it.next().unwrap().to_digit(16).unwrap() as u16),
            c => c as u16,
        });
    }
    String::from_utf16(&units).ok()
}

fn read_value(b: &[u8], i: &mut usize) -> Json {
    match b[*i] {
        b'{' => {
            let mut l = vec![];
            *i += 1;
            loop {
                skip(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return Json::Map(l);
                }
                if b[*i] == b',' {
                    *i += 1;
                    skip(b, i);
                }
                let k = read_string(b, i);
                skip(b, i);
                *i += 1;
                skip(b, i);
                let v = read_value(b, i);
                l.push((k, v));
            }
        }
        b'[' => {
            let mut l = vec![];
            *i += 1;
            loop {
                skip(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return Json::List(l);
                }
                if b[*i] == b',' {
                    *i += 1;
                    skip(b, i);
                }
                l.push(read_value(b, i));
            }
        }
        b'"' => Json::Str(read_string(b, i)),
        b'n' => {
            *i += 4;
            Json::Null
        }
        b't' => {
            *i += 4;
            Json::Bool
        }
        b'f' => {
            *i += 5;
            Json::Bool
        }
        _ => {
            let from = *i;
            number(b, i);
            Json::Num(String::from_utf8(b[from..*i].to_vec()).unwrap())
        }
    }
}

/// What a document says.
enum Reading {
    /// It has to load, with these values.
    Good(Vec<(&'static str, Val)>),
    /// It has to be refused: this key (or the whole) has the wrong shape.
    Bad(String),
    /// Nobody says what should happen: numbers out of range, integers written as fractions, a repeated
    /// key, half a surrogate pair.
    Open,
}

enum Fit<T> {
    Yes(T),
    No,
    Open,
}

fn fit_num(j: &Json) -> Fit<f32> {
    match j {
        Json::Num(t) => match t.parse::<f64>() {
            Ok(x) if x == 0.0 || (x.abs() < 3e38 && x.abs() > 1e-44) => Fit::Yes(x as f32),
            _ => Fit::Open,
        },
        _ => Fit::No,
    }
}

fn fit_int(j: &Json) -> Fit<i32> {
    match j {
        Json::Num(t) if t.contains(|c| c == '.' || c == 'e' || c == 'E') => match t.parse::<f64>() {
            Ok(x) if x.fract() != 0.0 && x.is_finite() => Fit::No,
            _ => Fit::Open,
        },
        Json::Num(t) => match t.parse::<i32>() {
            Ok(_) if t == "-0" => Fit::Open,
            Ok(x) => Fit::Yes(x),
            // an integer that no i32 holds
            _ => Fit::No,
        },
        _ => Fit::No,
    }
}

fn fit_str(j: &Json) -> Fit<String> {
    match j {
        Json::Str(Some(s)) => Fit::Yes(s.clone()),
        Json::Str(None) => Fit::Open,
        _ => Fit::No,
    }
}

fn fit_list<T>(j: &Json, f: &dyn Fn(&Json) -> Fit<T>) -> Fit<Vec<T>> {
    let l = match j {
        Json::List(l) => l,
        _ => return Fit::No,
    };
    let mut out = vec![];
    let mut open = false;
    for x in l {
        match f(x) {
            Fit::Yes(v) => out.push(v),
            Fit::No => return Fit::No,
            Fit::Open => open = true,
        }
    }
    if open {
        Fit::Open
    } else {
        Fit::Yes(out)
    }
}

fn reading(text: &[u8]) -> Reading {
    let map = match read(text) {
        Json::Map(m) => m,
        _ => return Reading::Bad("the document is no object".into()),
    };
    let ks = keys();
    let mut out: Vec<(&'static str, Val)> = vec![];
    let mut open = false;
    let mut bad = None;
    for (k, v) in &map {
        let k = match k {
            Some(k) => k,
            None => {
                open = true;
                continue;
            }
        };
        if strange(v) {
            open = true;
        }
        let (key, kind) = match ks.iter().find(|x| x.0 == k) {
            Some(x) => *x,
            None => continue,
        };
        if out.iter().any(|x| x.0 == key) {
            open = true;
        }
        let val = match kind {
            Kind::Num => map_fit(fit_num(v), Val::Num),
            Kind::Str => map_fit(fit_str(v), Val::Str),
            Kind::Strs => map_fit(fit_list(v, &fit_str), Val::Strs),
            Kind::Nums => map_fit(fit_list(v, &fit_num), Val::Nums),
            Kind::NumLists => map_fit(fit_list(v, &|x| fit_list(x, &fit_num)), Val::NumLists),
            Kind::IntLists => map_fit(fit_list(v, &|x| fit_list(x, &fit_int)), Val::IntLists),
            Kind::Triples => map_fit(
                fit_list(v, &|x| match fit_list(x, &fit_int) {
                    Fit::Yes(l) if l.len() == 3 => Fit::Yes([l[0], l[1], l[2]]),
                    Fit::Yes(_) => Fit::No,
                    Fit::No => Fit::No,
                    Fit::Open => Fit::Open,
                }),
                Val::Triples,
            ),
        };
        match val {
            Fit::Yes(v) => out.push((key, v)),
            Fit::No => bad = Some(key),
            Fit::Open => open = true,
        }
    }
    match bad {
        Some(k) => Reading::Bad(format!("the value of {} has the wrong shape", k)),
        None if open => Reading::Open,
        None => Reading::Good(out),
    }
}

fn map_fit<T, U>(f: Fit<T>, g: impl Fn(T) -> U) -> Fit<U> {
    match f {
        Fit::Yes(v) => Fit::Yes(g(v)),
        Fit::No => Fit::No,
        Fit::Open => Fit::Open,
    }
}

/// Does the value hold something a JSON reader may refuse (wherever it stands)?
fn strange(j: &Json) -> bool {
    match j {
        Json::Num(t) => t.parse::<f64>().map(|x| x.abs() > 1e300).unwrap_or(true),
        Json::Str(s) => s.is_none(),
        Json::List(l) => l.iter().any(strange),
        Json::Map(m) => m.iter().any(|(k, v)| k.is_none() || strange(v)),
        _ => false,
    }
}

/// A few edits of the text of a document that often leave it JSON: tokens moved, numbers changed, letters
/// of strings and keys changed.
fn edit(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(4) {
        if v.is_empty() {
            break;
        }
        let at = r.below(v.len());
        let c = v[at];
        match r.below(6) {
            0 if c.is_ascii_digit() => v[at] = b'0' + r.below(10) as u8,
            0 | 1 if c.is_ascii_alphabetic() => v[at] = *r.pick(b"abnrtuSVF_xE"),
            1 if c.is_ascii_digit() => v.insert(at, b'1' + r.below(9) as u8),
            2 if c == b',' || c == b':' || c == b'[' || c == b']' => {
                let w = *r.pick(&[" ", "\n", "\t", "\r\n"]);
                for (k, x) in w.bytes().enumerate() {
                    v.insert(at + k, x);
                }
            }
            3 => {
                // one list element or entry (up to the next comma) twice, or not at all
                let end = v[at..].iter().position(|x| *x == b',').map(|n| at + n);
                let from = v[..at].iter().rposition(|x| *x == b',');
                if let (Some(f), Some(e)) = (from, end) {
                    let piece: Vec<u8> = v[f..e].to_vec();
                    if r.chance(0.5) {
                        v.drain(f..e);
                    } else if piece.len() < 2000 {
                        for (k, x) in piece.into_iter().enumerate() {
                            v.insert(f + k, x);
                        }
                    }
                }
            }
            4 => {
                let w = *r.pick(&["[]", "[[]]", "null", "1", "\"x\"", "{}", "[1,2]", "[0,1,2]", "-1", "0.5"]);
                // in place of a token
                let from = v[..at].iter().rposition(|x| b",:[".contains(x)).map(|n| n + 1);
                let end = v[at..].iter().position(|x| b",]}".contains(x)).map(|n| at + n);
                if let (Some(f), Some(e)) = (from, end) {
                    v.splice(f..e, w.bytes());
                }
            }
            _ => {
                if c == b'.' || c == b'-' {
                    v.remove(at);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- cases

fn file(cx: &Cx, name: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(&cx.scratch);
    PathBuf::from(&cx.scratch).join(name)
}

fn write(cx: &Cx, name: &str, bytes: &[u8]) -> Result<PathBuf, Stop> {
    let p = file(cx, name);
    std::fs::write(&p, bytes).map_err(|e| Stop::Internal(format!("cannot write {}: {}", p.display(), e)))?;
    Ok(p)
}

/// The same file by another path: a name that is not UTF-8, a link, a detour.
fn elsewhere(cx: &mut Cx, r: &mut Rng, path: &Path) -> Result<PathBuf, Stop> {
    let err = |e: std::io::Error| Stop::Internal(e.to_string());
    let dir = PathBuf::from(&cx.scratch);
    let base = path.file_name().unwrap().to_os_string();
    Ok(match r.below(5) {
        0 => {
            let p = dir.join(std::ffi::OsStr::from_bytes(b"caf\xe9.fold"));
            std::fs::copy(path, &p).map_err(err)?;
            p
        }
        1 => {
            let p = dir.join("link.fold");
            let _ = std::fs::remove_file(&p);
            std::os::unix::fs::symlink(path, &p).map_err(err)?;
            p
        }
        2 => {
            std::fs::create_dir_all(dir.join("sub.d")).map_err(err)?;
            dir.join("sub.d").join("..").join(".").join(base)
        }
        3 => {
            let d = dir.join(std::ffi::OsStr::from_bytes(b"d\xff"));
            std::fs::create_dir_all(&d).map_err(err)?;
            let p = d.join("x");
            std::fs::copy(path, &p).map_err(err)?;
            p
        }
        _ => {
            let p = dir.join("n".repeat(255));
            std::fs::copy(path, &p).map_err(err)?;
            p
        }
    })
}

fn short(s: &str) -> String {
    let mut n = s.len().min(4000);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].to_string()
}

fn shorten(v: &Val) -> String {
    let s = format!("{:?}", v);
    let mut n = s.len().min(300);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].to_string()
}

fn import_case(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let mut d = doc(&mut r);
    let tail = if r.chance(0.5) { ws(&mut r, 2) } else { String::new() };
    d.text.push_str(&tail);
    if r.chance(0.3) {
        // an edited document, if it still says something definite
        let v = edit(&mut r, d.text.as_bytes());
        if v != d.text.as_bytes() && grammatical(&v) {
            if let Reading::Good(values) = reading(&v) {
                d = Doc { values, text: String::from_utf8(v).unwrap(), unknown: 0, spans: vec![] };
                cx.count("edited_documents");
            }
        }
    } else if r.chance(0.05) {
        // the two readers agree about what the generator wrote
        match reading(d.text.as_bytes()) {
            Reading::Good(v) => {
                if v.len() != d.values.len() || d.values.iter().any(|(k, a)| !v.iter().any(|(l, b)| k == l && same(a, b, false))) {
                    return Err(Stop::Internal("the generator and the second reader disagree".into()));
                }
            }
            Reading::Bad(w) => return Err(Stop::Internal(format!("the second reader refuses a generated document: {}", w))),
            Reading::Open => cx.count("documents_the_second_reader_leaves_open"),
        }
    }
    cx.note(&short(&d.text));
    cx.max("most_bytes", d.text.len() as u64);
    let name = if r.chance(0.9) {
        "import.fold"
    } else {
        *r.pick(&["import", "import.json", "import.FOLD", "折り紙.fold", "a b.fold", "import.fold.bak", "-import", "%41.fold", ".fold", "import.txt"])
    };
    let mut path = write(cx, name, d.text.as_bytes())?;
    if r.chance(0.05) && !cfg!(miri) {
        path = elsewhere(cx, &mut r, &path)?;
        cx.count("unusual_paths");
    }
    let got = match cx.call("Fold::from_file", true, || Fold::from_file(&path))? {
        Some(x) => x,
        None => return Ok(()),
    };
    let got = match got {
        Ok(f) => f,
        Err(e) => fail!("a well-formed document was rejected: {}", e),
    };
    for (k, kind) in keys() {
        let want = d.values.iter().find(|v| v.0 == k).map(|v| v.1.clone()).unwrap_or_else(|| empty(kind));
        let have = field(&got, k);
        ensure!(
            same(&want, &have, false),
            "field of key {} ({}): loaded {}, the document says {}",
            k,
            if d.values.iter().any(|v| v.0 == k) { "present" } else { "absent" },
            shorten(&have),
            shorten(&want)
        );
        cx.evaluations += 1;
    }
    cx.add("fields_present", d.values.len() as u64);
    cx.add("fields_absent", 24 - d.values.len() as u64);
    cx.add("unknown_keys", d.unknown as u64);
    if !d.values.is_empty() {
        cx.nontrivial(d.text.as_bytes());
        cx.sample(|| d.text.clone());
    }
    Ok(())
}

fn roundtrip_case(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let path = write(cx, "blank.fold", b"{}")?;
    let mut f = match Fold::from_file(&path) {
        Ok(f) => f,
        Err(_) => {
            cx.count("cases_ended_by_a_failure_owned_by_another_property");
            return Ok(());
        }
    };
    let p = *r.pick(&[0.2, 0.7, 1.0]);
    let mut filled = 0;
    for (k, kind) in keys() {
        if r.chance(p) {
            let v = gen_val(&mut r, kind);
            cx.note(&format!("{} = {}", k, shorten(&v)));
            set_field(&mut f, k, v);
            filled += 1;
        }
    }
    let pretty = r.chance(0.3);
    let export = |f: &Fold| if pretty { serde_json::to_string_pretty(f) } else { serde_json::to_string(f) };
    let text = match cx.call("exporting", true, || export(&f))? {
        Some(Ok(t)) => t,
        Some(Err(e)) => fail!("exporting failed: {}", e),
        None => return Ok(()),
    };
    ensure!(grammatical(text.as_bytes()), "the exported document is not JSON");
    let path = write(cx, "export.fold", text.as_bytes())?;
    let back = match cx.call("Fold::from_file", true, || Fold::from_file(&path))? {
        Some(Ok(b)) => b,
        Some(Err(e)) => fail!("the exported document was rejected: {}", e),
        None => return Ok(()),
    };
    for (k, _) in keys() {
        let (want, have) = (field(&f, k), field(&back, k));
        ensure!(same(&want, &have, true), "field of key {}: exported {}, came back as {}", k, shorten(&want), shorten(&have));
        cx.evaluations += 1;
    }
    let again = match cx.call("exporting", true, || export(&back))? {
        Some(Ok(t)) => t,
        Some(Err(e)) => fail!("exporting failed the second time: {}", e),
        None => return Ok(()),
    };
    ensure!(again == text, "exporting again gives a different document");
    cx.add("fields_filled", filled);
    cx.count("round_trips");
    if filled > 0 {
        cx.nontrivial(text.as_bytes());
        cx.sample(|| text.clone());
    }
    Ok(())
}

/// Text of a value that does not fit `k`.
fn wrong_for(r: &mut Rng, k: Kind) -> String {
    if r.chance(0.3) && !cfg!(miri) {
        // one wrong element in a long list
        let (good, wrong): (&str, &[&str]) = match k {
            Kind::Strs => ("\"B\"", &["null", "1", "[]"]),
            Kind::Nums => ("0.5", &["null", "\"1\"", "[]"]),
            Kind::NumLists => ("[0.5,1]", &["null", "1", "[[1]]", "[1,null]"]),
            Kind::IntLists => ("[0,1]", &["null", "1", "[0,1.5]", "[0,null]", "[0,\"1\"]", "[0,4294967296]"]),
            Kind::Triples => ("[0,1,-1]", &["null", "[]", "[0,1]", "[0,1,1,1]", "[0,1,null]", "[0,1,0.5]"]),
            _ => ("", &[]),
        };
        if !good.is_empty() {
            let n = *r.pick(&[2, 5, 17, 60, 300, 2000]);
            let at = if r.chance(0.5) { n - 1 } else { r.below(n) };
            let l: Vec<&str> = (0..n).map(|i| if i == at { *r.pick(wrong) } else { good }).collect();
            return format!("[{}]", l.join(","));
        }
    }
    let mut c: Vec<&str> = vec!["null", "true", "{}", "{\"a\":1}"];
    match k {
        Kind::Num => c.extend(&["\"1\"", "[]", "[1]", "\"\""]),
        Kind::Str => c.extend(&["1", "0.5", "[]", "[\"a\"]", "false"]),
        Kind::Strs => c.extend(&["\"a\"", "1", "[1]", "[\"a\",2]", "[[\"a\"]]", "[null]", "[\"a\",null,\"b\"]"]),
        Kind::Nums => c.extend(&["1.5", "\"1.5\"", "[\"1\"]", "[[1.0]]", "[1,null]", "[1,2,true]", "[{}]"]),
        Kind::NumLists => c.extend(&["1", "[1,2]", "[[1,2],3]", "[[\"1\",2]]", "[[1,null]]", "[null]", "[[[1,2]]]", "\"[]\""]),
        Kind::IntLists => c.extend(&["1", "[1,2]", "[[1,2],3]", "[[1,2.5]]", "[[1,2147483648]]", "[[-2147483649]]", "[[0,null]]", "[[\"0\"]]", "[[[0]]]"]),
        Kind::Triples => c.extend(&["1", "[1,2,3]", "[[1,2]]", "[[0,1,1],[2,3]]", "[[]]", "[[1,2,3,4]]", "[[0,1,null]]", "[[0,1,0.5]]", "[[0,1,2147483648]]", "[[0,1,\"1\"]]"]),
    }
    r.pick(&c).to_string()
}

fn bad_case(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let d = doc(&mut r);
    let base = d.text.trim().to_string();
    let shift = d.text.len() - d.text.trim_start().len();
    let mode = r.below(8);
    // (content, why it is bad); None as reason: judged by the grammar
    let mut tries: Vec<(Vec<u8>, Option<String>)> = vec![];
    let b = base.as_bytes();
    match mode {
        0 => {
            // no file at all
            let dir = file(cx, "a-directory");
            std::fs::create_dir_all(&dir).map_err(|e| Stop::Internal(e.to_string()))?;
            let plain = write(cx, "plain.fold", b)?;
            let link = |name: &str, to: &str| {
                let p = dir.join(name);
                if !cfg!(miri) && std::fs::symlink_metadata(&p).is_err() {
                    let _ = std::os::unix::fs::symlink(to, &p);
                }
                p
            };
            for (p, what) in [
                (file(cx, "missing.fold"), "a missing file"),
                (dir.clone(), "a directory"),
                (dir.join("missing").join("x.fold"), "a file in a missing directory"),
                (plain.join("x.fold"), "a file below a plain file"),
                (PathBuf::from(""), "an empty path"),
                (file(cx, "nul\0byte.fold"), "a path with a NUL byte"),
                (file(cx, &"x".repeat(300)), "an over-long name"),
                (dir.join(std::ffi::OsStr::from_bytes(b"not-utf8-\xff.fold")), "a missing file whose name is not UTF-8"),
                (link("loop", "loop"), "a link to itself"),
                (link("dangling", "nowhere"), "a dangling link"),
                (link("dir-link", "."), "a link to a directory"),
                (PathBuf::from("/dev/null"), "an empty device"),
            ] {
                if cfg!(miri) && (what == "a directory" || what == "an empty device") {
                    continue; // Miri cannot seek on a directory
                }
                cx.note(what);
                match cx.call(&format!("Fold::from_file on {}", what), true, || Fold::from_file(&p).is_ok())? {
                    Some(true) => fail!("{} was loaded without an error", what),
                    _ => {}
                }
                cx.evaluations += 1;
                cx.count("bad_paths_tried");
            }
            return Ok(());
        }
        1 => {
            // truncations: a proper prefix of an object is never an object
            let n = b.len();
            let mut cuts: Vec<usize> = if n <= 60 { (0..n).collect() } else { (0..40).map(|_| r.below(n)).collect() };
            cuts.push(0);
            cuts.push(n - 1);
            for c in cuts {
                tries.push((b[..c].to_vec(), Some(format!("truncated to {} of {} bytes", c, n))));
            }
        }
        2 => {
            // not UTF-8
            for _ in 0..12 {
                let mut v = b.to_vec();
                let at = r.below(v.len() + 1);
                let junk: &[u8] = r.pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0x80], &[0xe2, 0x82]]);
                for (k, x) in junk.iter().enumerate() {
                    v.insert(at + k, *x);
                }
                if std::str::from_utf8(&v).is_err() {
                    tries.push((v, Some("not UTF-8".into())));
                }
            }
        }
        3 => {
            // arbitrary bytes
            for _ in 0..12 {
                let n = r.below(60);
                let v: Vec<u8> = if r.chance(0.5) {
                    (0..n).map(|_| r.u64() as u8).collect()
                } else {
                    (0..n).map(|_| *r.pick(b"{}[]\",:0123456789.eE+-truefalsnl \\u")).collect()
                };
                tries.push((v, None));
            }
        }
        4 | 5 => {
            // edits, judged by the second reader, and byte mutations
            for _ in 0..16 {
                tries.push((edit(&mut r, b), None));
                let mut v = b.to_vec();
                for _ in 0..1 + r.below(3) {
                    if v.is_empty() {
                        break;
                    }
                    let at = r.below(v.len());
                    match r.below(5) {
                        0 => v[at] ^= 1 << r.below(8),
                        1 => {
                            v.remove(at);
                        }
                        2 => v.insert(at, *r.pick(b"{}[]\",:0-.e\\ \x01x")),
                        3 => v[at] = *r.pick(b"{}[]\",:0-.e\\ \x01x"),
                        _ => {
                            let to = r.below(v.len());
                            v.swap(at, to);
                        }
                    }
                }
                tries.push((v, None));
            }
            // and things after the end
            let mut v = b.to_vec();
            v.extend_from_slice(r.pick(&["x", "{}", ",", "]", "}", "null", "\u{0}"]).as_bytes());
            tries.push((v, Some("something after the end".into())));
        }
        6 => {
            // one supported key with a value of the wrong shape
            let ks = keys();
            for _ in 0..12 {
                if d.values.is_empty() || r.chance(0.3) {
                    let (k, kind) = *r.pick(&ks);
                    let w = wrong_for(&mut r, kind);
                    tries.push((format!("{{\"{}\":{}}}", k, w).into_bytes(), Some(format!("{} is {}", k, w))));
                } else {
                    let i = r.below(d.values.len());
                    let (k, _) = d.values[i];
                    let kind = ks.iter().find(|x| x.0 == k).unwrap().1;
                    let w = wrong_for(&mut r, kind);
                    let (f, t) = d.spans[i];
                    let text = format!("{}{}{}", &base[..f - shift], w, &base[t - shift..]);
                    tries.push((text.into_bytes(), Some(format!("{} is {}", k, w))));
                }
            }
        }
        _ => {
            // the whole document is no object
            for t in ["", " ", "null", "true", "1", "1.5", "\"{}\"", "[]", "[{}]", "[1]", "[1.1,\"\"]", "[[]]", "{}{}", "{", "}", "\u{feff}", "NaN", "{'a':1}", "// x\n{}", "{\"a\":1,}", "{a:1}", "{\"a\"}", "{\"a\":}", "{,}", "\u{feff}null", "\u{a0}[]"] {
                tries.push((t.as_bytes().to_vec(), Some(format!("the document is {:?}", t))));
            }
            tries.push((format!("[{}]", base).into_bytes(), Some("the document is an array with an object in it".into())));
            let deep = if cfg!(miri) { 300 } else { 20_000 };
            tries.push(("[".repeat(deep).into_bytes(), Some("deeply nested brackets".into())));
            tries.push((format!("{{\"vertices_coords\":{}", "[".repeat(deep)).into_bytes(), Some("deeply nested brackets".into())));
            tries.push((format!("{{\"x\":{}", "{\"x\":".repeat(deep)).into_bytes(), Some("deeply nested objects".into())));
        }
    }
    cx.count(&format!("mode_{}", ["bad_path", "truncated", "not_utf8", "random_bytes", "mutated", "mutated", "wrong_value", "no_object"][mode]));
    if cfg!(miri) {
        tries.truncate(5);
    }
    for (bytes, why) in tries {
        let mut why = why;
        if why.is_none() && grammatical(&bytes) {
            if let Reading::Bad(w) = reading(&bytes) {
                cx.count("documents_refused_by_the_second_reader");
                why = Some(w);
            }
        }
        let bad = why.is_some() || !grammatical(&bytes);
        let path = write(cx, "bad.fold", &bytes)?;
        let shown = String::from_utf8_lossy(&bytes);
        cx.trace.clear();
        cx.note(&short(&shown));
        let ok = cx.call("Fold::from_file", true, || Fold::from_file(&path).is_ok())?;
        cx.evaluations += 1;
        if bad {
            cx.count("bad_documents_tried");
            if ok == Some(true) {
                fail!("a bad document ({}) was loaded without an error", why.unwrap_or_else(|| "not JSON".into()));
            }
            cx.nontrivial(&bytes);
        } else {
            cx.count("mutations_that_stayed_json");
        }
    }
    let t = cx.trace.clone();
    cx.sample(|| t);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            case: import_case,
            quick: 120_000,
            thorough: 4_000_000,
            floor: 300,
            required: &["fields_present", "fields_absent", "unknown_keys", "edited_documents"],
            rule: "A case is one generated document (a random subset of the 24 supported keys in random order, unknown and nearly right keys, random layout and escaping, now and then of a size around a power of two), or an edit of one that a second, independent reader still gives a definite meaning, loaded from a file; an evaluation is one field compared. Non-trivial: at least one supported key; distinct by text.",
            assumptions: &["numbers may differ from the correctly rounded value by one unit in the last place of f32"],
        },
        Prop {
            id: "C25",
            case: roundtrip_case,
            quick: 120_000,
            thorough: 4_000_000,
            floor: 300,
            required: &["fields_filled", "round_trips"],
            rule: "A case is one Fold object with randomly filled fields, exported, re-imported, compared field by field and exported again. Non-trivial: at least one field filled; distinct by exported text.",
            assumptions: &["objects start as the import of {} because Fold has no constructor"],
        },
        Prop {
            id: "C26",
            case: bad_case,
            quick: 24_000,
            thorough: 1_000_000,
            floor: 300,
            required: &["bad_paths_tried", "mode_truncated", "mode_not_utf8", "mode_random_bytes", "mode_mutated", "mode_wrong_value", "mode_no_object", "documents_refused_by_the_second_reader"],
            rule: "A case is a group of files that cannot be loaded (missing, directory, truncated, not UTF-8, random bytes, mutated, wrong shape) or, for mutations, that are judged by an independent JSON grammar checker; an evaluation is one call. Distinct by file content.",
            assumptions: &["runs as root, so permission errors are represented by other I/O errors (directory, missing, over-long name)"],
        },
    ]
}
