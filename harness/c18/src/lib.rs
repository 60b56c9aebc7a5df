// C18: discriminants and representation of enums, as chosen by both generators, for symbolic digits around every limit.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");

const REPRS: [&str; 11] = ["", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"];
fn limits(r: usize) -> (i128, i128) { match r { 1 => (0, 255), 2 => (-128, 127), 3 => (0, 65535), 4 => (-32768, 32767), 5 => (0, u32::MAX as i128), 6 => (i32::MIN as i128, i32::MAX as i128), 7 | 9 => (0, u64::MAX as i128), 8 | 10 => (i64::MIN as i128, i64::MAX as i128), _ => (i64::MIN as i128, u64::MAX as i128) } }
const CPP: [&str; 11] = ["", "::std::uint8_t", "::std::int8_t", "::std::uint16_t", "::std::int16_t", "::std::uint32_t", "::std::int32_t", "::std::uint64_t", "::std::int64_t", "::std::size_t", "::rust::isize"];

/// One literal: its text, and its magnitude (None: beyond 64 bits), which are functions of symbolic digits.
struct Num { text: String, mag: Option<u64>, neg: bool }
const TOO_LARGE: i128 = 1 << 100;
impl Num { fn value(&self) -> i128 { let m = match self.mag { Some(m) => m as i128, None => TOO_LARGE }; if self.neg { -m } else { m } } fn tokens(&self, suffix: &str) -> TokenStream { let l = literal(&(self.text.clone() + suffix)); if self.neg { let mut t = tokens("-", &[]); t.extend(l); t } else { l } } }
const PREFIX: [(&str, usize); 13] = [("", 1), ("", 2), ("", 3), ("1", 2), ("2", 2), ("327", 2), ("655", 2), ("21474836", 2), ("42949672", 2), ("92233720368547758", 2), ("184467440737095516", 2), ("1844674407370955161", 2), ("1267650600228229401496703205", 3)];
fn number(which: usize, neg: bool) -> Num {
    let (prefix, n) = PREFIX[which]; let mut text = String::from(prefix);
    for _ in 0..n { let d = range(0, 9, c"digit"); text.push((b'0' + d as u8) as char); }
    let mag = text.parse().ok(); Num { text, mag, neg }
}
/// How the two languages write a value.
fn written(v: i128, minus: &str, cpp: bool) -> String { if cpp && v == i64::MIN as i128 { return String::from("-9223372036854775807 - 1"); } if v < 0 { format!("{}{}", minus, (-v) as u64) } else { (v as u64).to_string() } }
fn same_text(a: &str, b: &str) -> bool { let (a, b) = (a.as_bytes(), b.as_bytes()); if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r = and(r, a[i] == b[i]); } r }
/// Runs both generators on enum E { body } and compares with what is expected: None when it must be rejected, and otherwise the representation (0: any) and the values.
fn judge(repr: usize, body: &str, with: &[TokenStream], want: Option<(usize, &[i128])>) {
    let attr = if repr == 0 { String::new() } else { format!("#[repr({})]", REPRS[repr]) };
    let e = format!("mod ffi {{ {} enum E {{ {} }} }}", attr, body);
    let c = cpp(&tokens(&format!("#[cxx::bridge] {}", e), with)); let r = rust(&tokens(&e, with));
    check(c.is_ok() == r.is_ok(), c"both-accept-or-both-reject"); check(c.is_ok() == want.is_some(), if want.is_some() { c"accepted" } else { c"rejected" });
    let (c, r, (ty, vals)) = match (c, r, want) { (Ok(c), Ok(r), Some(w)) => (c, r, w), _ => { reach(c"rejected"); return; } };
    for text in [&c.header, &c.cc] {
        let mut i = 0; let mut n = 0;
        while let Some(p) = find_from(text, "enum class E : ", i) { i = p + 15; let t = &text.as_bytes()[i..]; let w = CPP[ty].as_bytes(); n += 1; check(ty == 0 || (t.starts_with(w) && (t[w.len()] == b';' || t[w.len()] == b' ')), c"c++-representation"); }
        check(n >= 1, c"c++-enum");
        for (i, v) in vals.iter().enumerate() { let w = between(text, &format!("\n  {} = ", (b'A' + i as u8) as char), ",\n"); check(w.is_some(), c"c++-variant"); check(same_text(w.unwrap(), &written(*v, "-", true)), c"c++-value"); }
    }
    let t = between(&r, "pub repr : ", " }"); check(t.is_some(), c"rust-enum"); let t = t.unwrap().trim_end_matches(|c| c == ',' || c == ' '); let t = t.strip_prefix(":: cxx :: core :: primitive :: ").unwrap_or(t); check(ty == 0 || t == REPRS[ty], c"rust-representation");
    for (i, v) in vals.iter().enumerate() { let w = between(&r, &format!("pub const {} : Self = E {{ repr : ", (b'A' + i as u8) as char), " }"); check(w.is_some(), c"rust-variant"); check(same_text(w.unwrap().trim_end_matches(|c| c == ',' || c == ' '), &written(*v, "- ", false)), c"rust-value"); }
    reach(c"accepted");
}
fn fits(r: usize, v: i128) -> bool { let (lo, hi) = limits(r); v >= lo && v <= hi }
/// The representation to expect for these values: declared, or else the first of the candidates that holds them all.
fn expected(repr: usize, vals: &[i128]) -> Option<usize> {
    if repr != 0 { for v in vals { if !fits(repr, *v) { return None; } } return Some(repr); }
    for r in 1..=8 { let mut all = true; for v in vals { all &= fits(r, *v); } if all { return Some(r); } } None
}
/// rustc, not the generator, rejects what does not fit the pointer-sized types; the generator only rejects magnitudes beyond 64 bits.
fn left_to_rustc(repr: usize, vals: &[i128]) -> bool { repr >= 9 && vals.iter().any(|v| !fits(repr, *v) && *v <= u64::MAX as i128 && *v >= -(u64::MAX as i128)) }
fn run(repr: usize, body: &str, with: &[TokenStream], vals: &[i128]) { if left_to_rustc(repr, vals) { return; } let x = expected(repr, vals); judge(repr, body, with, x.map(|t| (t, vals))) }

/// One explicit value.
fn one(reprs: &[usize], prefixes: &[usize], negs: usize) { let r = reprs[choice(reprs.len(), c"repr")]; let n = number(prefixes[choice(prefixes.len(), c"prefix")], negs == 1 || (negs == 2 && choice(2, c"negative") == 1)); run(r, "A = __0", &[n.tokens("")], &[n.value()]); reach(c"done"); }
#[no_mangle] extern "C" fn h_one_infer_positive() { one(&[0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 0) }
#[no_mangle] extern "C" fn h_one_infer_negative() { one(&[0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 1) }
#[no_mangle] extern "C" fn h_one_8() { one(&[1, 2], &[0, 2, 7], 2) }
#[no_mangle] extern "C" fn h_one_16() { one(&[3, 4], &[1, 5, 6, 8], 2) }
#[no_mangle] extern "C" fn h_one_32() { one(&[5, 6], &[1, 7, 8, 9], 2) }
#[no_mangle] extern "C" fn h_one_64() { one(&[7, 8], &[1, 9, 10, 11], 2) }
#[no_mangle] extern "C" fn h_one_size() { one(&[9, 10], &[1, 9, 10, 11, 12], 2) }
#[no_mangle] extern "C" fn h_one_declared_any_deep() { one(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 2) }

/// An explicit value and the two after it.
fn next(reprs: &[usize], prefixes: &[usize], negs: usize) { let r = reprs[choice(reprs.len(), c"repr")]; let n = number(prefixes[choice(prefixes.len(), c"prefix")], negs == 1 || (negs == 2 && choice(2, c"negative") == 1)); let v = n.value(); run(r, "A = __0, B, C", &[n.tokens("")], &[v, v + 1, v + 2]); reach(c"done"); }
#[no_mangle] extern "C" fn h_next_infer_positive() { next(&[0], &[0, 2, 5, 6, 7, 8, 9, 10], 0) }
#[no_mangle] extern "C" fn h_next_infer_negative() { next(&[0], &[0, 2, 5, 6, 7, 8, 9], 1) }
#[no_mangle] extern "C" fn h_next_8() { next(&[1, 2], &[0, 2], 2) }
#[no_mangle] extern "C" fn h_next_16_32() { next(&[3, 4, 5, 6], &[0, 5, 6, 7, 8], 2) }
#[no_mangle] extern "C" fn h_next_64() { next(&[7, 8, 9, 10], &[0, 9, 10], 2) }

/// Two explicit values in either order, an implicit one between or after them.
fn two(first: &[usize], second: &[usize], every: bool) {
    let shape = choice(3, c"shape"); let a = number(first[choice(first.len(), c"prefix")], choice(2, c"negative") == 1); let b = number(second[choice(second.len(), c"prefix")], if every || shape == 0 { choice(2, c"negative") == 1 } else { shape == 1 }); let (x, y) = (a.value(), b.value());
    match shape { 0 => run(0, "A = __0, B = __1", &[a.tokens(""), b.tokens("")], &[x, y]), 1 => run(0, "A = __1, B, C = __0", &[a.tokens(""), b.tokens("")], &[y, y + 1, x]), _ => run(0, "A, B = __0, C = __1, D", &[a.tokens(""), b.tokens("")], &[0, x, y, y + 1]) } reach(c"done");
}
#[no_mangle] extern "C" fn h_two_small() { two(&[2, 4], &[0], false) }
#[no_mangle] extern "C" fn h_two_medium() { two(&[5, 8], &[0], false) }
#[no_mangle] extern "C" fn h_two_large() { two(&[9, 10], &[0], false) }
#[no_mangle] extern "C" fn h_two_any_deep() { two(&[3, 4, 5, 6, 7, 8, 9, 10], &[0, 4, 5, 8, 9], true) }

/// Literal suffixes decide the representation, and must agree with each other, the declared one and every value.
fn suffixes(reprs: &[usize]) {
    let r = reprs[choice(reprs.len(), c"repr")]; let (s, t) = (choice(11, c"suffix"), choice(3, c"second")); let n = number(2, false); let v = n.value();
    // The second variant has no suffix, the same one, or u16.
    let second = match t { 0 => 0, 1 => s, _ => 3 };
    let mut ty = r; let mut ok = true; for x in [s, second] { if x != 0 { if ty == 0 { ty = x; } else if ty != x { ok = false; } } }
    if left_to_rustc(ty, &[v, 7]) { return; }
    let vs = [v, 7]; let want = if ok { expected(ty, &[v, 7]) } else { None };
    judge(r, "A = __0, B = __1", &[n.tokens(REPRS[s]), literal(&format!("7{}", REPRS[second]))], want.map(|x| (x, &vs[..]))); reach(c"done");
}
#[no_mangle] extern "C" fn h_suffix_undeclared() { suffixes(&[0]) }
#[no_mangle] extern "C" fn h_suffix_declared() { suffixes(&[1, 3]) }
#[no_mangle] extern "C" fn h_suffix_declared_deep() { suffixes(&[2, 4, 5, 6, 7, 8, 9, 10]) }
/// A suffix that comes after unsuffixed values applies to those too.
#[no_mangle] extern "C" fn h_suffix_late() {
    let s = 1 + choice(8, c"suffix"); let n = number([2, 5, 8][choice(3, c"prefix")], choice(2, c"negative") == 1); let vs = [n.value(), 7];
    judge(0, "A = __0, B = __1", &[n.tokens(""), literal(&format!("7{}", REPRS[s]))], expected(s, &vs).map(|x| (x, &vs[..]))); reach(c"done");
}
/// So too when there are others in between, explicit or not.
fn suffix_last(half: usize) {
    let s = 1 + choice(8, c"suffix"); let n = number([2, 5, 8][choice(3, c"prefix")], choice(2, c"negative") == 1); let v = n.value(); let last = literal(&format!("9{}", REPRS[s]));
    let (body, vs): (&str, Vec<i128>) = match half * 2 + choice(2, c"shape") { 0 => ("A = __0, B = 2, C = __1", vec![v, 2, 9]), 1 => ("A = __0, B = 2, C, D = __1", vec![v, 2, 3, 9]), 2 => ("A, B = __0, C, D = __1", vec![0, v, v + 1, 9]), _ => ("A = 2, B = __0, C = 1, D = __1, E", vec![2, v, 1, 9, 10]) };
    judge(0, body, &[n.tokens(""), last], expected(s, &vs).map(|x| (x, &vs[..]))); reach(c"done");
}
#[no_mangle] extern "C" fn h_suffix_last_1() { suffix_last(0) }
#[no_mangle] extern "C" fn h_suffix_last_2() { suffix_last(1) }

/// Hexadecimal, octal and binary literals, and underscores.
#[no_mangle] extern "C" fn h_radix() {
    const P: [(&str, u32, &str, usize); 9] = [("0x", 16, "", 2), ("0x7FFFFFFFFFFFFFF", 16, "", 1), ("0xFFFFFFFFFFFFFFF", 16, "", 1), ("0xffffffff", 16, "", 1), ("0o3", 8, "", 2), ("0o177777777777777777777", 8, "", 1), ("0b1111111", 2, "", 2), ("1_", 10, "", 2), ("6_5_53_", 10, "_", 1)];
    let (p, radix, tail, n) = P[choice(9, c"form")]; let neg = choice(2, c"negative") == 1; let mut text = String::from(p); let mut mag = 0u64;
    for b in p.bytes().skip(if radix == 10 { 0 } else { 2 }) { if b != b'_' { mag = mag.wrapping_mul(radix as u64).wrapping_add((b as char).to_digit(16).unwrap() as u64); } }
    for _ in 0..n { let d = range(0, (radix - 1) as u64, c"digit") as u8; let c = if radix == 16 && d >= 10 { b'a' + d - 10 } else { b'0' + d }; text.push(c as char); mag = mag.wrapping_mul(radix as u64).wrapping_add(d as u64); } text.push_str(tail);
    let x = Num { text, mag: Some(mag), neg }; run(0, "A = __0, B", &[x.tokens("")], &[x.value(), x.value() + 1]); reach(c"done");
}

/// No explicit value at all: 0, 1, 2, … in the smallest representation that holds them.
#[no_mangle] extern "C" fn h_implicit() {
    let (r, n) = [(0, 1), (0, 255), (0, 256), (0, 257), (1, 256), (1, 257), (2, 128), (2, 129), (10, 3)][choice(9, c"case")]; let mut body = String::new(); let mut v = Vec::new();
    for i in 0..n { if i < 2 || i == n - 1 { body.push((b'A' + v.len() as u8) as char); body.push(','); v.push(i as i128); } else { body.push_str(&format!("V{},", i)); } }
    run(r, &body, &[], &v); reach(c"done");
}
/// No variants; and expressions that are not integer literals.
#[no_mangle] extern "C" fn h_forms() {
    const F: [(&str, Option<i128>); 14] = [("1 + 1", None), ("- - 5", Some(5)), ("- - - 5", Some(-5)), ("\"1\"", None), ("'a'", None), ("b'a'", None), ("1.0", None), ("X", None), ("true", None), ("!0", None), ("1f32", None), ("1u128", None), ("- - 0", Some(0)), ("3i7", None)];
    let (f, v) = F[choice(14, c"form")]; let r = choice(2, c"declared") as usize * 2; judge(r, "A = __0, B", &[f.parse().unwrap()], v.map(|v| (expected(r, &[v, v + 1]).unwrap(), [v, v + 1])).as_ref().map(|(t, v)| (*t, &v[..]))); reach(c"done");
}
