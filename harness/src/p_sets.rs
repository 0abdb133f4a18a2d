//! P27: the published character sets and their named entries.
use crate::p_basic::st;
use crate::spec;
use crate::sx::*;
use chanoma::characters_set::prelude::*;
use chanoma::corr::Linear;
use chanoma::{Chanoma, Corr, Correspondence, Item, Table, TableBuilder};

type L = Correspondence<Linear>;
static DIGIT: [L; 10] = [Digits::DIGIT_ZERO, Digits::DIGIT_ONE, Digits::DIGIT_TWO, Digits::DIGIT_THREE, Digits::DIGIT_FOUR, Digits::DIGIT_FIVE, Digits::DIGIT_SIX, Digits::DIGIT_SEVEN, Digits::DIGIT_EIGHT, Digits::DIGIT_NINE];
static CAPITAL: [L; 26] = [Alphabets::CAPITAL_LETTER_A, Alphabets::CAPITAL_LETTER_B, Alphabets::CAPITAL_LETTER_C, Alphabets::CAPITAL_LETTER_D, Alphabets::CAPITAL_LETTER_E, Alphabets::CAPITAL_LETTER_F, Alphabets::CAPITAL_LETTER_G, Alphabets::CAPITAL_LETTER_H, Alphabets::CAPITAL_LETTER_I, Alphabets::CAPITAL_LETTER_J, Alphabets::CAPITAL_LETTER_K, Alphabets::CAPITAL_LETTER_L, Alphabets::CAPITAL_LETTER_M, Alphabets::CAPITAL_LETTER_N, Alphabets::CAPITAL_LETTER_O, Alphabets::CAPITAL_LETTER_P, Alphabets::CAPITAL_LETTER_Q, Alphabets::CAPITAL_LETTER_R, Alphabets::CAPITAL_LETTER_S, Alphabets::CAPITAL_LETTER_T, Alphabets::CAPITAL_LETTER_U, Alphabets::CAPITAL_LETTER_V, Alphabets::CAPITAL_LETTER_W, Alphabets::CAPITAL_LETTER_X, Alphabets::CAPITAL_LETTER_Y, Alphabets::CAPITAL_LETTER_Z];
static SMALL: [L; 26] = [Alphabets::SMALL_LETTER_A, Alphabets::SMALL_LETTER_B, Alphabets::SMALL_LETTER_C, Alphabets::SMALL_LETTER_D, Alphabets::SMALL_LETTER_E, Alphabets::SMALL_LETTER_F, Alphabets::SMALL_LETTER_G, Alphabets::SMALL_LETTER_H, Alphabets::SMALL_LETTER_I, Alphabets::SMALL_LETTER_J, Alphabets::SMALL_LETTER_K, Alphabets::SMALL_LETTER_L, Alphabets::SMALL_LETTER_M, Alphabets::SMALL_LETTER_N, Alphabets::SMALL_LETTER_O, Alphabets::SMALL_LETTER_P, Alphabets::SMALL_LETTER_Q, Alphabets::SMALL_LETTER_R, Alphabets::SMALL_LETTER_S, Alphabets::SMALL_LETTER_T, Alphabets::SMALL_LETTER_U, Alphabets::SMALL_LETTER_V, Alphabets::SMALL_LETTER_W, Alphabets::SMALL_LETTER_X, Alphabets::SMALL_LETTER_Y, Alphabets::SMALL_LETTER_Z];
static MARK: [(L, char); 33] = [(Punctuations::EXCLAMATION_MARK, '!'), (Punctuations::QUOTATION_MARK, '"'), (Punctuations::SHARP, '#'), (Punctuations::DOLLER_SIGN, '$'), (Punctuations::PERCENT_SIGN, '%'), (Punctuations::AMPERSAND, '&'), (Punctuations::APOSTROPHE, '\''), (Punctuations::LEFT_PARENTHESIS, '('), (Punctuations::RIGHT_PARENTHESIS, ')'), (Punctuations::ASTERISK, '*'), (Punctuations::PLUS_SIGN, '+'), (Punctuations::COMMA, ','), (Punctuations::HYPHEN_MINUS, '-'), (Punctuations::FULL_STOP, '.'), (Punctuations::SLASH, '/'), (Punctuations::COLON, ':'), (Punctuations::SEMI_COLON, ';'), (Punctuations::LESS_THAN_SIGN, '<'), (Punctuations::EQUAL_SIGN, '='), (Punctuations::GREATER_THAN_SIGN, '>'), (Punctuations::QUESTION_MARK, '?'), (Punctuations::AT_SIGN, '@'), (Punctuations::LEFT_SQUARE_BRACKET, '['), (Punctuations::BACKSLASH, '\\'), (Punctuations::YEN_SIGN, '¥'), (Punctuations::RIGHT_SQUARE_BRACKET, ']'), (Punctuations::CIRCUMFLEX_ACCENT, '^'), (Punctuations::LOW_LINE, '_'), (Punctuations::GRAVE_ACCENT, '`'), (Punctuations::LEFT_CURLY_BRACKET, '{'), (Punctuations::VERTICAL_BAR, '|'), (Punctuations::RIGHT_CURLY_BRACKET, '}'), (Punctuations::TILDE, '~')];
static KANA: [(L, char); 61] = [(Kanas::KATAKANA_LETTER_SMALL_A, 'ァ'), (Kanas::KATAKANA_LETTER_A, 'ア'), (Kanas::KATAKANA_LETTER_SMALL_I, 'ィ'), (Kanas::KATAKANA_LETTER_I, 'イ'), (Kanas::KATAKANA_LETTER_SMALL_U, 'ゥ'), (Kanas::KATAKANA_LETTER_U, 'ウ'), (Kanas::KATAKANA_LETTER_SMALL_E, 'ェ'), (Kanas::KATAKANA_LETTER_E, 'エ'), (Kanas::KATAKANA_LETTER_SMALL_O, 'ォ'), (Kanas::KATAKANA_LETTER_O, 'オ'), (Kanas::KATAKANA_LETTER_KA, 'カ'), (Kanas::KATAKANA_LETTER_KI, 'キ'), (Kanas::KATAKANA_LETTER_KU, 'ク'), (Kanas::KATAKANA_LETTER_KE, 'ケ'), (Kanas::KATAKANA_LETTER_KO, 'コ'), (Kanas::KATAKANA_LETTER_SA, 'サ'), (Kanas::KATAKANA_LETTER_SI, 'シ'), (Kanas::KATAKANA_LETTER_SU, 'ス'), (Kanas::KATAKANA_LETTER_SE, 'セ'), (Kanas::KATAKANA_LETTER_SO, 'ソ'), (Kanas::KATAKANA_LETTER_TA, 'タ'), (Kanas::KATAKANA_LETTER_TI, 'チ'), (Kanas::KATAKANA_LETTER_SMALL_TU, 'ッ'), (Kanas::KATAKANA_LETTER_TU, 'ツ'), (Kanas::KATAKANA_LETTER_TE, 'テ'), (Kanas::KATAKANA_LETTER_TO, 'ト'), (Kanas::KATAKANA_LETTER_NA, 'ナ'), (Kanas::KATAKANA_LETTER_NI, 'ニ'), (Kanas::KATAKANA_LETTER_NU, 'ヌ'), (Kanas::KATAKANA_LETTER_NE, 'ネ'), (Kanas::KATAKANA_LETTER_NO, 'ノ'), (Kanas::KATAKANA_LETTER_HA, 'ハ'), (Kanas::KATAKANA_LETTER_HI, 'ヒ'), (Kanas::KATAKANA_LETTER_HU, 'フ'), (Kanas::KATAKANA_LETTER_HE, 'ヘ'), (Kanas::KATAKANA_LETTER_HO, 'ホ'), (Kanas::KATAKANA_LETTER_MA, 'マ'), (Kanas::KATAKANA_LETTER_MI, 'ミ'), (Kanas::KATAKANA_LETTER_MU, 'ム'), (Kanas::KATAKANA_LETTER_ME, 'メ'), (Kanas::KATAKANA_LETTER_MO, 'モ'), (Kanas::KATAKANA_LETTER_SMALL_YA, 'ャ'), (Kanas::KATAKANA_LETTER_YA, 'ヤ'), (Kanas::KATAKANA_LETTER_SMALL_YU, 'ュ'), (Kanas::KATAKANA_LETTER_YU, 'ユ'), (Kanas::KATAKANA_LETTER_SMALL_YO, 'ョ'), (Kanas::KATAKANA_LETTER_YO, 'ヨ'), (Kanas::KATAKANA_LETTER_RA, 'ラ'), (Kanas::KATAKANA_LETTER_RI, 'リ'), (Kanas::KATAKANA_LETTER_RU, 'ル'), (Kanas::KATAKANA_LETTER_RE, 'レ'), (Kanas::KATAKANA_LETTER_RO, 'ロ'), (Kanas::KATAKANA_LETTER_WA, 'ワ'), (Kanas::KATAKANA_LETTER_WO, 'ヲ'), (Kanas::KATAKANA_LETTER_N, 'ン'), (Kanas::IDEOGRAPHIC_COMMA, '、'), (Kanas::IDEOGRAPHIC_FULL_STOP, '。'), (Kanas::KATAKANA_MIDDLE_DOT, '・'), (Kanas::LEFT_CORNER_BRACKET, '「'), (Kanas::RIGHT_CORNER_BRACKET, '」'), (Kanas::IDEOGRAPHIC_SPACE, ' ')];
/// the set that a character belongs to: 0 digits, 1 letters, 2 marks, 3 kana
fn class(c: char) -> u32 {
    match c {
        '０'..='９' => 0,
        'Ａ'..='Ｚ' | 'ａ'..='ｚ' => 1,
        '　' | '｡'..='･' | 'ｦ'..='ﾝ' => 3,
        _ => 2,
    }
}
/// a named entry, and what its name says
fn named(i: usize) -> (&'static L, char) {
    match i {
        0..=9 => (&DIGIT[i], (b'0' + i as u8) as char),
        10..=35 => (&CAPITAL[i - 10], (b'A' + (i - 10) as u8) as char),
        36..=61 => (&SMALL[i - 36], (b'a' + (i - 36) as u8) as char),
        62..=94 => (&MARK[i - 62].0, MARK[i - 62].1),
        _ => (&KANA[i - 95].0, KANA[i - 95].1),
    }
}
const NAMED: usize = 95 + 61;
/// the documented character for that replacement
fn original(to: char) -> char {
    for u in (0xff01..=0xff9f).chain([0x201d, 0x2019, 0x301c, 0xffe5, 0x3000]) {
        let c = char::from_u32(u).unwrap();
        if c != to && spec::preset(c) == to {
            return c;
        }
    }
    unreachable!()
}
fn set(k: u32) -> Vec<Item> {
    match k {
        0 => DIGITS.items(),
        1 => ALPHABETS.items(),
        2 => PUNCTUATIONS.items(),
        3 => KANAS.items(),
        4 => ALL.items(),
        5 => Digits::new().items(),
        6 => Alphabets::new().corr().items(),
        7 => Punctuations::new().items(),
        8 => Kanas::new().corr().items(),
        9 => All::new().items(),
        _ => {
            let mut b = TableBuilder::new();
            b.preset();
            b.build().items()
        }
    }
}
// each set has one entry for each of its characters, the documented one, and no other
#[no_mangle]
pub extern "C" fn h_p27_a() {
    let k = choice(90, 11);
    let c = ch(1);
    shard();
    hash_mode(0, 0);
    let v = set(k);
    let to = spec::preset(c);
    let of = if k < 5 { k } else { k - 5 };
    let want = to != c && (of >= 4 || class(c) == of);
    let (f, t) = (st(c), st(to));
    let mut n = 0;
    for x in &v {
        if x.from == f {
            n += 1;
            check(x.to == t, 1);
        }
    }
    check(n == if want { 1 } else { 0 }, 2);
    for i in 1..v.len() {
        check(v[i - 1] < v[i], 3);
    }
    note(&[v.len() as u8]);
}
// a named entry is the conversion that its name says, alone and in other tables
#[no_mangle]
pub extern "C" fn h_p27_b() {
    let i = choice(90, NAMED as u32) as usize;
    let c = ch(1);
    shard();
    hash_mode(0, 0);
    let (l, to) = named(i);
    let from = original(to);
    let v = l.items();
    check(v.len() == 1 && v[0].from == st(from) && v[0].to == st(to), 1);
    let mut b = Table::new();
    b.add(l);
    one(&b, c, if c == from { to } else { c }, 2);
    b.add(&Linear::new("é", "e").corr());
    one(&b, c, if c == from { to } else if c == 'é' { 'e' } else { c }, 4);
    b.remove(l);
    one(&b, c, if c == 'é' { 'e' } else { c }, 6);
}
// a named entry taken from the preset
#[no_mangle]
pub extern "C" fn h_p27_c() {
    let i = choice(90, NAMED as u32) as usize;
    let c = if tier() == 1 { ch(1) } else { ch_of(1, 2) };
    shard();
    hash_mode(0, 0);
    let (l, to) = named(i);
    let from = original(to);
    let mut b = TableBuilder::new();
    b.preset();
    b.remove_corr(l);
    one(&b.build(), c, if c == from { c } else { spec::preset(c) }, 8);
}
fn one(t: &Table, c: char, want: char, code: u32) {
    let n = Chanoma::from_table(t.clone());
    let r = n.normalize(&string(&['x', c]));
    note(r.as_bytes());
    check(r == string(&['x', want]), code);
}
