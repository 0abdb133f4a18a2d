//! What the properties say, written down independently of the implementation.
#![allow(dead_code)]

/// half-width katakana U+FF66..=U+FF9D to full-width
const KATA: [u16; 56] = [
    0x30F2, 0x30A1, 0x30A3, 0x30A5, 0x30A7, 0x30A9, 0x30E3, 0x30E5, 0x30E7, 0x30C3, // ｦｧｨｩｪｫｬｭｮｯ
    0xFF70, // ｰ is not a letter of the preset
    0x30A2, 0x30A4, 0x30A6, 0x30A8, 0x30AA, 0x30AB, 0x30AD, 0x30AF, 0x30B1, 0x30B3, // ｱｲｳｴｵｶｷｸｹｺ
    0x30B5, 0x30B7, 0x30B9, 0x30BB, 0x30BD, 0x30BF, 0x30C1, 0x30C4, 0x30C6, 0x30C8, // ｻｼｽｾｿﾀﾁﾂﾃﾄ
    0x30CA, 0x30CB, 0x30CC, 0x30CD, 0x30CE, 0x30CF, 0x30D2, 0x30D5, 0x30D8, 0x30DB, // ﾅﾆﾇﾈﾉﾊﾋﾌﾍﾎ
    0x30DE, 0x30DF, 0x30E0, 0x30E1, 0x30E2, 0x30E4, 0x30E6, 0x30E8, // ﾏﾐﾑﾒﾓﾔﾕﾖ
    0x30E9, 0x30EA, 0x30EB, 0x30EC, 0x30ED, 0x30EF, 0x30F3, // ﾗﾘﾙﾚﾛﾜﾝ
];

/// P02: the documented preset
pub fn preset(c: char) -> char {
    let u = c as u32;
    let r = if u >= 0xFF01 && u <= 0xFF5D {
        // full-width ASCII, but the full-width quotes have no entry
        if u == 0xFF02 || u == 0xFF07 {
            u
        } else {
            u - 0xFEE0
        }
    } else if u >= 0xFF66 && u <= 0xFF9D {
        KATA[(u - 0xFF66) as usize] as u32
    } else {
        match u {
            0xFF61 => 0x3002,
            0xFF62 => 0x300C,
            0xFF63 => 0x300D,
            0xFF64 => 0x3001,
            0xFF65 => 0x30FB,
            0x201D => 0x22,
            0x2019 => 0x27,
            0x301C => 0x7E,
            0xFFE5 => 0xA5,
            0x3000 => 0x20,
            _ => u,
        }
    };
    unsafe { char::from_u32_unchecked(r) }
}

pub fn is_tilde(c: char) -> bool {
    matches!(c as u32, 0x7E | 0x223C | 0x223E | 0x301C | 0x3030 | 0xFF5E)
}
pub fn is_choonpu(c: char) -> bool {
    matches!(c as u32, 0xFE63 | 0xFF70 | 0x2014 | 0x2015 | 0x2500 | 0x2501)
}
pub fn is_hyphen(c: char) -> bool {
    matches!(
        c as u32,
        0x2D7 | 0x58A | 0x2010 | 0x2011 | 0x2012 | 0x2013 | 0x2043 | 0x207B | 0x208B | 0x2212 | 0xFF0D
    )
}
/// the character conversion of neologdn mode
pub fn neo_char(c: char) -> char {
    if is_choonpu(c) {
        'ー'
    } else if is_hyphen(c) {
        '-'
    } else if c == '＝' {
        c
    } else {
        preset(c)
    }
}
/// the composed form of a kana followed by ゛ or ゜
pub fn compose(base: char, mark: char) -> Option<char> {
    let b = base as u32;
    let r = if mark == '゛' {
        // か..と: unvoiced kana are at the odd code points before っ, even after
        let h = if b >= 0x30A1 { b - 0x60 } else { b };
        let v = match h {
            0x304B | 0x304D | 0x304F | 0x3051 | 0x3053 | 0x3055 | 0x3057 | 0x3059 | 0x305B | 0x305D | 0x305F
            | 0x3061 | 0x3064 | 0x3066 | 0x3068 | 0x306F | 0x3072 | 0x3075 | 0x3078 | 0x307B => h + 1,
            0x3046 => 0x3094,
            _ => 0,
        };
        if v != 0 && b >= 0x30A1 {
            v + 0x60
        } else {
            v
        }
    } else if mark == '゜' {
        match b {
            0x306F | 0x3072 | 0x3075 | 0x3078 | 0x307B | 0x30CF | 0x30D2 | 0x30D5 | 0x30D8 | 0x30DB => b + 2,
            _ => 0,
        }
    } else {
        0
    };
    if r == 0 {
        None
    } else {
        Some(unsafe { char::from_u32_unchecked(r) })
    }
}

/// P03: runs of `c` collapse
pub fn reduce(t: &[char], c: char) -> Vec<char> {
    let mut o = Vec::new();
    for i in 0..t.len() {
        if t[i] == c && i > 0 && t[i - 1] == c {
            continue;
        }
        o.push(t[i]);
    }
    o
}
/// P04
pub fn eliminate(t: &[char], l: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    for &x in t {
        let mut hit = false;
        for &y in l {
            if x == y {
                hit = true;
            }
        }
        if !hit {
            o.push(x);
        }
    }
    o
}
pub fn alnum(c: char) -> bool {
    let u = c as u32;
    (u >= 0x30 && u <= 0x39) || (u >= 0x41 && u <= 0x5A) || (u >= 0x61 && u <= 0x7A)
}
/// P05
pub fn dotted(t: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] != ' ' {
            o.push(t[i]);
            i += 1;
            continue;
        }
        let b = i;
        while i < t.len() && t[i] == ' ' {
            i += 1;
        }
        if b > 0 && alnum(t[b - 1]) && i < t.len() && alnum(t[i]) {
            o.push(' ');
        }
    }
    o
}
/// P06
pub fn trim(t: &[char]) -> Vec<char> {
    let mut a = 0;
    let mut b = t.len();
    while a < b && t[a] == ' ' {
        a += 1;
    }
    while b > a && t[b - 1] == ' ' {
        b -= 1;
    }
    t[a..b].to_vec()
}
/// P07: one rule, left to right, non-overlapping
pub fn replace(t: &[char], from: &[char], to: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let mut hit = from.len() > 0 && i + from.len() <= t.len();
        if hit {
            for k in 0..from.len() {
                if t[i + k] != from[k] {
                    hit = false;
                    break;
                }
            }
        }
        if hit {
            o.extend_from_slice(to);
            i += from.len();
        } else {
            o.push(t[i]);
            i += 1;
        }
    }
    o
}
pub fn ligatures(t: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if i + 1 < t.len() {
            if let Some(c) = compose(t[i], t[i + 1]) {
                o.push(c);
                i += 2;
                continue;
            }
        }
        o.push(t[i]);
        i += 1;
    }
    o
}

/// The compatibility forms of U+3300..=U+33FF (NFKC, with the table's plain
/// spellings: the micro sign, an ordinary slash, pH, ppm and K.K.)
const SQUARE: [&str; 256] = [
    "アパート", "アルファ", "アンペア", "アール", "イニング", "インチ", "ウォン", "エスクード",
    "エーカー", "オンス", "オーム", "カイリ", "カラット", "カロリー", "ガロン", "ガンマ",
    "ギガ", "ギニー", "キュリー", "ギルダー", "キロ", "キログラム", "キロメートル", "キロワット",
    "グラム", "グラムトン", "クルゼイロ", "クローネ", "ケース", "コルナ", "コーポ", "サイクル",
    "サンチーム", "シリング", "センチ", "セント", "ダース", "デシ", "ドル", "トン",
    "ナノ", "ノット", "ハイツ", "パーセント", "パーツ", "バーレル", "ピアストル", "ピクル",
    "ピコ", "ビル", "ファラッド", "フィート", "ブッシェル", "フラン", "ヘクタール", "ペソ",
    "ペニヒ", "ヘルツ", "ペンス", "ページ", "ベータ", "ポイント", "ボルト", "ホン",
    "ポンド", "ホール", "ホーン", "マイクロ", "マイル", "マッハ", "マルク", "マンション",
    "ミクロン", "ミリ", "ミリバール", "メガ", "メガトン", "メートル", "ヤード", "ヤール",
    "ユアン", "リットル", "リラ", "ルピー", "ルーブル", "レム", "レントゲン", "ワット",
    "0点", "1点", "2点", "3点", "4点", "5点", "6点", "7点",
    "8点", "9点", "10点", "11点", "12点", "13点", "14点", "15点",
    "16点", "17点", "18点", "19点", "20点", "21点", "22点", "23点",
    "24点", "hPa", "da", "AU", "bar", "oV", "pc", "dm",
    "dm2", "dm3", "IU", "平成", "昭和", "大正", "明治", "株式会社",
    "pA", "nA", "µA", "mA", "kA", "KB", "MB", "GB",
    "cal", "kcal", "pF", "nF", "µF", "µg", "mg", "kg",
    "Hz", "kHz", "MHz", "GHz", "THz", "µl", "ml", "dl",
    "kl", "fm", "nm", "µm", "mm", "cm", "km", "mm2",
    "cm2", "m2", "km2", "mm3", "cm3", "m3", "km3", "m/s",
    "m/s2", "Pa", "kPa", "MPa", "GPa", "rad", "rad/s", "rad/s2",
    "ps", "ns", "µs", "ms", "pV", "nV", "µV", "mV",
    "kV", "MV", "pW", "nW", "µW", "mW", "kW", "MW",
    "kΩ", "MΩ", "a.m.", "Bq", "cc", "cd", "C/kg", "Co.",
    "dB", "Gy", "ha", "HP", "in", "K.K.", "KM", "kt",
    "lm", "ln", "log", "lx", "mb", "mil", "mol", "pH",
    "p.m.", "ppm", "PR", "sr", "Sv", "Wb", "V/m", "A/m",
    "1日", "2日", "3日", "4日", "5日", "6日", "7日", "8日",
    "9日", "10日", "11日", "12日", "13日", "14日", "15日", "16日",
    "17日", "18日", "19日", "20日", "21日", "22日", "23日", "24日",
    "25日", "26日", "27日", "28日", "29日", "30日", "31日", "gal",
];
pub fn square_is(c: char, to: &str) -> bool {
    let k = c as usize;
    k >= 0x3300 && k <= 0x33ff && SQUARE[k - 0x3300] == to
}
