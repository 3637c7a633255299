//! Entry points for the static analysis. Nothing here is ever run: each function names one public
//! operation of seshat whose MIR, and everything it calls, the analyser follows for all inputs.
#![allow(non_snake_case, improper_ctypes_definitions, long_running_const_eval)]
use seshat::unicode::props::*;
use seshat::unicode::{CodePoint, Normalization, Segmentation, ToCodePoint, Ucd, UnicodeVersion, UNICODE_VERSION};

type Text = (*const u8, usize);

fn leak(s: String) -> Text {
    let r = (s.as_ptr(), s.len());
    std::mem::forget(s);
    r
}
fn cp(c: u32) -> CodePoint {
    match CodePoint::new(c) {
        Ok(c) => c,
        Err(_) => panic!("harness: code point rejected"),
    }
}

// p_* : asked of the CodePoint, c_* : asked of the char
macro_rules! props {
    ($($p:ident $c:ident $m:ident $t:ty;)*) => { $(
        pub fn $p(c: u32) -> $t { cp(c).$m() }
        pub fn $c(c: char) -> $t { c.$m() }
    )* };
}
macro_rules! texts {
    ($($p:ident $c:ident $m:ident;)*) => { $(
        pub fn $p(c: u32) -> Text { leak(cp(c).$m()) }
        pub fn $c(c: char) -> Text { leak(c.$m()) }
    )* };
}
props! {
    p_bc c_bc bc Bc; p_ccc c_ccc ccc Ccc; p_dt c_dt dt Dt; p_gc c_gc gc Gc; p_gcb c_gcb gcb Gcb; p_wb c_wb wb Wb;
    p_hst c_hst hst Hst; p_insc c_insc insc Insc; p_incb c_incb incb Incb; p_blk c_blk blk Blk; p_sc c_sc sc Sc; p_age c_age age Age;
    p_wspace c_wspace wspace bool; p_bidi_c c_bidi_c bidi_c bool; p_join_c c_join_c join_c bool; p_dash c_dash dash bool;
    p_hyphen c_hyphen hyphen bool; p_qmark c_qmark qmark bool; p_term c_term term bool; p_omath c_omath omath bool;
    p_hex c_hex hex bool; p_ahex c_ahex ahex bool; p_oalpha c_oalpha oalpha bool; p_ideo c_ideo ideo bool; p_dia c_dia dia bool;
    p_ext c_ext ext bool; p_olower c_olower olower bool; p_oupper c_oupper oupper bool; p_nchar c_nchar nchar bool;
    p_ogr_ext c_ogr_ext ogr_ext bool; p_idsb c_idsb idsb bool; p_idst c_idst idst bool; p_radical c_radical radical bool;
    p_uideo c_uideo uideo bool; p_odi c_odi odi bool; p_dep c_dep dep bool; p_sd c_sd sd bool; p_loe c_loe loe bool;
    p_oids c_oids oids bool; p_oidc c_oidc oidc bool; p_sterm c_sterm sterm bool; p_vs c_vs vs bool; p_pat_ws c_pat_ws pat_ws bool;
    p_pat_syn c_pat_syn pat_syn bool; p_pcm c_pcm pcm bool; p_ri c_ri ri bool; p_ce c_ce ce bool; p_ci c_ci ci bool;
    p_comp_ex c_comp_ex comp_ex bool; p_math c_math math bool; p_alpha c_alpha alpha bool; p_lower c_lower lower bool;
    p_upper c_upper upper bool; p_cased c_cased cased bool; p_di c_di di bool; p_gr_ext c_gr_ext gr_ext bool; p_ids c_ids ids bool;
    p_idc c_idc idc bool; p_xids c_xids xids bool; p_xidc c_xidc xidc bool; p_emoji c_emoji emoji bool; p_epres c_epres epres bool;
    p_emod c_emod emod bool; p_ebase c_ebase ebase bool; p_ecomp c_ecomp ecomp bool; p_ext_pict c_ext_pict ext_pict bool;
}
texts! { p_dm c_dm dm; p_na c_na na; }

// the number a combining class stands for
pub fn p_ccc_rank(c: u32) -> u8 { cp(c).ccc() as u8 }

// property value names
macro_rules! names {
    ($($f:ident $t:ty;)*) => { $(
        pub fn $f(x: $t) -> (Text, Text) {
            let n = x.property_value_name();
            ((n.full.as_ptr(), n.full.len()), (n.abbr.as_ptr(), n.abbr.len()))
        }
    )* };
}
names! { n_gc Gc; n_hst Hst; n_gcb Gcb; n_bc Bc; n_ccc Ccc; n_dt Dt; n_blk Blk; n_sc Sc; n_age Age; n_wb Wb; n_insc Insc; n_incb Incb; n_bin BinaryProperty; }
pub fn bin_from(b: bool) -> BinaryProperty { BinaryProperty::from(b) }

// code points
pub fn cp_new_ok(c: u32) -> bool { CodePoint::new(c).is_ok() }
pub fn cp_round(c: u32) -> u32 { cp(c).to_u32() }
pub fn cp_char(c: char) -> u32 { c.to_code_point().to_u32() }
pub fn cp_copy(c: u32) -> u32 { let a = cp(c); let b = a; let d = a.clone(); if b.to_u32() == d.to_u32() { d.to_u32() } else { 0xFFFF_FFFF } }
pub fn cp_text(c: u32) -> Text { leak(cp(c).to_string()) }

// version
pub fn ver_const() -> (u32, u32, u32) { (UNICODE_VERSION.major, UNICODE_VERSION.minor, UNICODE_VERSION.update) }
pub fn ver_const_text() -> Text { leak(UNICODE_VERSION.to_string()) }
fn ver(a: u32, b: u32, c: u32) -> UnicodeVersion { UnicodeVersion { major: a, minor: b, update: c } }
pub fn ver_text(a: u32, b: u32, c: u32) -> Text { leak(ver(a, b, c).to_string()) }
pub fn ver_cmp(a: u32, b: u32, c: u32, x: u32, y: u32, z: u32) -> (bool, bool, bool, bool, bool, i8) {
    let (v, w) = (ver(a, b, c), ver(x, y, z));
    let o = match v.partial_cmp(&w) {
        None => 2,
        Some(o) => o as i8,
    };
    (v == w, v < w, v <= w, v > w, v >= w, o)
}

// normalization of a whole text
pub fn nfd(s: &str) -> Text { leak(s.to_nfd()) }
pub fn nfkd(s: &str) -> Text { leak(s.to_nfkd()) }
pub fn nfc(s: &str) -> Text { leak(s.to_nfc()) }
pub fn nfkc(s: &str) -> Text { leak(s.to_nfkc()) }

fn one(c: char, b: &mut [u8; 4]) -> &str { c.encode_utf8(b) }
// the same with the text's real bytes
pub fn nfd1(c: char) -> Text { let mut b = [0; 4]; leak(one(c, &mut b).to_nfd()) }
pub fn nfkd1(c: char) -> Text { let mut b = [0; 4]; leak(one(c, &mut b).to_nfkd()) }
pub fn nfc1(c: char) -> Text { let mut b = [0; 4]; leak(one(c, &mut b).to_nfc()) }
pub fn nfkc1(c: char) -> Text { let mut b = [0; 4]; leak(one(c, &mut b).to_nfkc()) }

// segmentation: where the first piece lies, and where the rest starts
pub fn seg_first(s: &str) -> (bool, usize, usize) {
    let mut it = s.break_graphemes();
    match it.next() {
        None => (false, 0, 0),
        Some(p) => (true, (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize), p.len()),
    }
}
pub fn seg_two(s: &str) -> (bool, usize, usize, bool, usize, usize) {
    let mut it = s.break_graphemes();
    let a = match it.next() {
        None => (false, 0, 0),
        Some(p) => (true, (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize), p.len()),
    };
    let b = match it.next() {
        None => (false, 0, 0),
        Some(p) => (true, (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize), p.len()),
    };
    (a.0, a.1, a.2, b.0, b.1, b.2)
}

// two and three characters, real bytes
fn text2(a: char, b: char) -> String { let mut s = String::with_capacity(16); s.push(a); s.push(b); s }
fn text3(a: char, b: char, c: char) -> String { let mut s = text2(a, b); s.push(c); s }
fn text4(a: char, b: char, c: char, d: char) -> String { let mut s = text3(a, b, c); s.push(d); s }
pub fn nfd2(a: char, b: char) -> Text { leak(text2(a, b).to_nfd()) }
pub fn nfkd2(a: char, b: char) -> Text { leak(text2(a, b).to_nfkd()) }
pub fn nfc2(a: char, b: char) -> Text { leak(text2(a, b).to_nfc()) }
pub fn nfkc2(a: char, b: char) -> Text { leak(text2(a, b).to_nfkc()) }
pub fn nfd3(a: char, b: char, c: char) -> Text { leak(text3(a, b, c).to_nfd()) }
pub fn nfkd3(a: char, b: char, c: char) -> Text { leak(text3(a, b, c).to_nfkd()) }
pub fn nfc3(a: char, b: char, c: char) -> Text { leak(text3(a, b, c).to_nfc()) }
pub fn nfkc3(a: char, b: char, c: char) -> Text { leak(text3(a, b, c).to_nfkc()) }
pub fn nfd4(a: char, b: char, c: char, d: char) -> Text { leak(text4(a, b, c, d).to_nfd()) }
pub fn nfc4(a: char, b: char, c: char, d: char) -> Text { leak(text4(a, b, c, d).to_nfc()) }

// texts of any length, real bytes: the characters are the input
fn text(s: &[char]) -> String { let mut t = String::new(); for c in s { t.push(*c); } t }
pub fn nfd_s(s: &[char]) -> Text { leak(text(s).to_nfd()) }
pub fn nfkd_s(s: &[char]) -> Text { leak(text(s).to_nfkd()) }
pub fn nfc_s(s: &[char]) -> Text { leak(text(s).to_nfc()) }
pub fn nfkc_s(s: &[char]) -> Text { leak(text(s).to_nfkc()) }

// how the forms are related, without any outside reference: bit i is set when relation i holds
fn rel(s: &str) -> u32 {
    let (d, kd, c, kc) = (s.to_nfd(), s.to_nfkd(), s.to_nfc(), s.to_nfkc());
    (d.to_nfd() == d) as u32
        | ((kd.to_nfkd() == kd) as u32) << 1
        | ((c.to_nfc() == c) as u32) << 2
        | ((kc.to_nfkc() == kc) as u32) << 3
        | ((d.to_nfc() == c) as u32) << 4
        | ((c.to_nfd() == d) as u32) << 5
        | ((kd.to_nfkc() == kc) as u32) << 6
        | ((kc.to_nfkd() == kd) as u32) << 7
        | ((d.to_nfkd() == kd) as u32) << 8
        | ((c.to_nfkc() == kc) as u32) << 9
}
pub fn rel1(a: char) -> u32 { let mut b = [0; 4]; rel(one(a, &mut b)) }
pub fn rel2(a: char, b: char) -> u32 { rel(&text2(a, b)) }
pub fn rel_s(s: &[char]) -> u32 { rel(&text(s)) }

// segmentation, real bytes: start of the first piece, its length, and the number of bytes of the text
fn first(s: &str) -> (bool, usize, usize, usize) {
    match s.break_graphemes().next() {
        None => (false, 0, 0, s.len()),
        Some(p) => (true, (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize), p.len(), s.len()),
    }
}
pub fn seg_s(s: &[char]) -> (bool, usize, usize, usize) { first(&text(s)) }
// the whole iteration: every piece starts where the one before ended and is not empty; how far it got; number of pieces;
// whether it ended by itself and stays ended
fn all(s: &str) -> (bool, usize, usize, usize, bool) {
    let mut it = s.break_graphemes();
    let (mut at, mut n, mut ok) = (0usize, 0usize, true);
    let mut left = s.len() + 1;
    while left > 0 {
        match it.next() {
            None => return (ok, at, s.len(), n, it.next().is_none()),
            Some(p) => {
                if (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize) != at || p.len() == 0 {
                    ok = false;
                }
                at = at.wrapping_add(p.len());
                n += 1;
            }
        }
        left -= 1;
    }
    (ok, at, s.len(), n, false)
}
pub fn seg_all(s: &str) -> (bool, usize, usize, usize, bool) { all(s) }
pub fn seg_all_s(s: &[char]) -> (bool, usize, usize, usize, bool) { all(&text(s)) }
// every other way to consume the iterator gives what next gives: bits 0 count, 1 last, 2 nth(0), 3 nth(1), 4 nth past the end,
// 5 fold, 6 size_hint, 7 skip, 8 the next piece after nth(0), 9 a second iteration
fn agree(s: &str) -> u32 {
    let mut v: Vec<(usize, usize)> = Vec::with_capacity(s.len() + 1);
    let mut it = s.break_graphemes();
    let mut left = s.len() + 1;
    while left > 0 {
        match it.next() {
            None => break,
            Some(p) => v.push(at(p)),
        }
        left -= 1;
    }
    let (lo, hi) = s.break_graphemes().size_hint();
    let mut f = 0usize;
    let mut same = true;
    s.break_graphemes().fold((), |_, p| {
        same &= f < v.len() && v[f] == at(p);
        f += 1;
    });
    let mut g = 0usize;
    for p in s.break_graphemes() {
        same &= g < v.len() && v[g] == at(p);
        g += 1;
    }
    let mut after = s.break_graphemes();
    let _ = after.nth(0);
    (s.break_graphemes().count() == v.len()) as u32
        | ((s.break_graphemes().last().map(at) == v.last().copied()) as u32) << 1
        | ((s.break_graphemes().nth(0).map(at) == v.get(0).copied()) as u32) << 2
        | ((s.break_graphemes().nth(1).map(at) == v.get(1).copied()) as u32) << 3
        | (s.break_graphemes().nth(v.len()).is_none() as u32) << 4
        | ((same && f == v.len()) as u32) << 5
        | ((lo <= v.len() && hi.map_or(true, |h| v.len() <= h)) as u32) << 6
        | ((s.break_graphemes().skip(1).next().map(at) == v.get(1).copied()) as u32) << 7
        | ((after.next().map(at) == v.get(1).copied()) as u32) << 8
        | ((g == v.len()) as u32) << 9
}
fn at(p: &str) -> (usize, usize) { (p.as_ptr() as usize, p.len()) }
pub fn seg_agree(s: &str) -> u32 { agree(s) }
pub fn seg_agree_s(s: &[char]) -> u32 { agree(&text(s)) }
pub fn seg_empty() -> (bool, usize, usize, usize, bool) { all("") }
// where every piece of a text starts, at most eight
pub fn seg_cuts(s: &str) -> (usize, usize, usize, usize, usize, usize, usize, usize) {
    let mut e = [0usize; 8];
    let mut at = 0;
    let mut n = 0;
    for p in s.break_graphemes() {
        at += p.len();
        if n < 8 {
            e[n] = at;
        }
        n += 1;
    }
    (e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7])
}
pub fn seg_cuts_s(s: &[char]) -> (usize, usize, usize, usize, usize, usize, usize, usize) { seg_cuts(&text(s)) }

// where every piece of a text ends, however many there are
fn list(s: &str) -> (*const usize, usize) {
    let mut v: Vec<usize> = Vec::with_capacity(s.len());
    let mut at = 0usize;
    for p in s.break_graphemes() {
        at = at.wrapping_add(p.len());
        v.push(at);
    }
    let r = (v.as_ptr(), v.len());
    std::mem::forget(v);
    r
}
pub fn seg_list(s: &str) -> (*const usize, usize) { list(s) }
pub fn seg_list_s(s: &[char]) -> (*const usize, usize) { list(&text(s)) }

// two-stage tables: index and contents are inputs
use seshat::collections::TwoStageTable;
macro_rules! tables {
    ($($f:ident $i:ty, $b:expr, $t:ty;)*) => { $(
        pub fn $f(cp: u32, i0: u8, i1: u8, i2: u8, i3: u8, v0: $t, v1: $t, v2: $t, v3: $t, v4: $t, v5: $t) -> $t {
            let flat = [v0, v1, v2, v3, v4, v5];
            let blocks: [&[$t]; 6 / $b] = std::array::from_fn(|k| &flat[k * $b..(k + 1) * $b]);
            let index = [i0 as $i, i1 as $i, i2 as $i, i3 as $i];
            TwoStageTable::new(&index, &blocks, $b).at(cp)
        }
    )* };
}
tables! { ts_u8_1 u8, 1, u32; ts_u8_2 u8, 2, u32; ts_u8_3 u8, 3, u32; ts_u16_2 u16, 2, u32; ts_usize_3 usize, 3, u32; ts_u32_2 u32, 2, char; ts_u64_1 u64, 1, u8; ts_i16_3 i16, 3, u8; }
const fn big_index<const N: usize>() -> [u16; N] {
    let mut a = [0; N];
    let mut k = 0;
    while k < N {
        a[k] = ((k * 7) % 600) as u16;
        k += 1;
    }
    a
}
const fn big_block() -> [u32; 256 * 600] {
    let mut a = [0; 256 * 600];
    let mut k = 0;
    while k < 256 * 600 {
        a[k] = k as u32;
        k += 1;
    }
    a
}
static BIG_INDEX: [u16; 8704] = big_index::<8704>();
static BIG: [u32; 256 * 600] = big_block();
static WIDE_INDEX: [u16; 70000] = big_index::<70000>();
macro_rules! bigs {
    ($($f:ident $b:expr, $i:ident;)*) => { $(
        pub fn $f(cp: u32) -> u32 {
            let blocks: [&[u32]; 600] = std::array::from_fn(|k| &BIG[k * $b..(k + 1) * $b]);
            TwoStageTable::new(&$i, &blocks, $b).at(cp)
        }
    )* };
}
bigs! { ts_big_128 128, BIG_INDEX; ts_big_256 256, BIG_INDEX; ts_big_100 100, BIG_INDEX; ts_wide_1 1, WIDE_INDEX; ts_wide_2 2, WIDE_INDEX; ts_wide_16 16, WIDE_INDEX; }
// more blocks than 16 bits can number
const fn deep_index() -> [u32; 70000] {
    let mut a = [0; 70000];
    let mut k = 0;
    while k < 70000 {
        a[k] = ((k * 7 + 66000) % 70000) as u32;
        k += 1;
    }
    a
}
const fn deep_blocks() -> [&'static [u32]; 70000] {
    let mut a: [&'static [u32]; 70000] = [&[]; 70000];
    let mut k = 0;
    while k < 70000 {
        a[k] = BIG.split_at(2 * k).1.split_at(2).0;
        k += 1;
    }
    a
}
static DEEP_INDEX: [u32; 70000] = deep_index();
static DEEP: [&[u32]; 70000] = deep_blocks();
pub fn ts_deep(cp: u32) -> u32 { TwoStageTable::new(&DEEP_INDEX, &DEEP, 2).at(cp) }
