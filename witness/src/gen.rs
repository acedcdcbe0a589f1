//! Generators.
use crate::Ctx;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn any_char(&mut self) -> char {
        loop {
            let c = match self.below(8) {
                0 | 1 => 0x20 + self.below(0x5f) as u32,
                2 => self.below(0x80) as u32,
                3 => 0x80 + self.below(0x780) as u32,
                4 => 0x3000 + self.below(0x100) as u32,
                5 => 0xFF00 + self.below(0xF0) as u32,
                6 => 0x800 + self.below(0xF800) as u32,
                _ => 0x10000 + self.below(0x100000) as u32,
            };
            if let Some(c) = char::from_u32(c) { return c; }
        }
    }
    pub fn text(&mut self, set: &[char], max: usize) -> String {
        let n = self.below(max + 1);
        let wild = self.below(6);
        (0..n).map(|_| if wild == 0 || set.is_empty() || (wild == 1 && self.chance(4)) { self.any_char() } else { *self.pick(set) }).collect()
    }
}

/// characters that matter to some modifier, one of every UTF-8 length, and neighbours of range borders
pub const SPECIAL: &[char] = &[
    ' ', 'a', 'Z', '0', '9', 'z', 'A', '/', ':', '@', '[', '`', '{', '-', '=', '~', '\t', '\n', '\r', '\0', '\u{7f}', '\u{80}', '\u{a0}',
    'é', 'µ', '\u{7ff}', '\u{800}', '\u{2003}', '\u{200b}', '\u{3000}', '゛', '゜', '゙', '゚', 'ー', 'か', 'が', 'は', 'ば', 'ぱ', 'ハ', 'バ', 'パ', 'ウ', 'ヴ', 'ｶ', 'ﾞ', 'ﾟ', 'ｰ', '～', '〜',
    'Ａ', 'ｚ', '０', '９', '！', '＝', '－', '−', '‐', '㏍', '㎤', '㎟', '\u{ffff}', '\u{fffd}', '\u{10000}', '😀', '𠮷', '\u{10ffff}', 'İ', 'ß', '٠', '²', 'Ａ', '漢',
];

/// every string over `set` of at most n characters
pub fn exhaustive(set: &[char], n: usize, f: &mut dyn FnMut(&str) -> bool) {
    let mut idx: Vec<usize> = Vec::new();
    let mut s = String::new();
    loop {
        s.clear();
        s.extend(idx.iter().map(|&i| set[i]));
        if !f(&s) { return; }
        let mut k = idx.len();
        loop {
            if k == 0 { idx = vec![0; idx.len() + 1]; break; }
            k -= 1;
            idx[k] += 1;
            if idx[k] < set.len() { break; }
            idx[k] = 0;
        }
        if idx.len() > n { return; }
    }
}

/// lengths at which something might change: small ones, powers of two and what the source mentions
pub fn lengths(ctx: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..34).collect();
    let mut p = 64;
    while p <= if ctx.thorough { 1 << 17 } else { 1 << 13 } { v.extend([p - 1, p, p + 1]); p *= 2; }
    v.extend([100, 200, 255, 256, 500, 1000]);
    for &n in &ctx.nums { if n <= 200_000 { v.extend([n.saturating_sub(1), n, n + 1, n / 2, n / 3 + 1]); } }
    v.sort();
    v.dedup();
    v
}

/// The texts on which a modifier over the characters `set` (at most six of them, most interesting first) is tried.
pub fn texts(ctx: &mut Ctx, set: &[char], f: &mut dyn FnMut(&mut Ctx, &str)) {
    // all short ones
    let k = set.len().min(5);
    let n = match (k, ctx.thorough) { (0..=2, false) => 11, (0..=2, true) => 14, (3, false) => 8, (3, true) => 10, (4, false) => 6, (4, true) => 8, (_, false) => 5, (_, true) => 7 };
    ctx.slice(0.3, |ctx| exhaustive(&set[..k], n, &mut |s| { f(ctx, s); !ctx.sliced_out() }));
    // every single character the source mentions, alone, doubled and between others
    let mut cs = ctx.chars.clone();
    cs.extend(SPECIAL);
    ctx.slice(0.15, |ctx| for c in cs {
        if ctx.sliced_out() { break; }
        for s in [format!("{c}"), format!("{c}{c}"), format!("a{c}b"), format!(" {c} "), format!("{c}{c}{c} {c}")] { f(ctx, &s); }
        for &x in set.iter().take(4) { for s in [format!("{x}{c}"), format!("{c}{x}"), format!("{x}{c}{x}"), format!("{c}{x}{x}{c}")] { f(ctx, &s); } }
    });
    // long runs
    let ls = lengths(ctx);
    let lead = ['a', 'あ'];
    ctx.slice(0.25, |ctx| for l in ls {
        if ctx.sliced_out() { break; }
        for (i, &x) in set.iter().enumerate().take(4) {
            let run: String = std::iter::repeat(x).take(l).collect();
            f(ctx, &run);
            for a in lead { f(ctx, &format!("{a}{run}{a}")); }
            f(ctx, &format!("{run}a")); f(ctx, &format!("a{run}"));
            let y = set[(i + 1) % set.len()];
            f(ctx, &format!("{run}{y}{run}"));
            if l < 3000 { f(ctx, &format!("{}", format!("{x}{y}").repeat(l))); f(ctx, &format!("{}", format!("{x}a").repeat(l))); f(ctx, &format!("{}{x}", "a".repeat(l))); f(ctx, &format!("{}{x}{x}", "あ".repeat(l))); }
        }
    });
    // random ones
    let strs = ctx.strs.clone();
    while !ctx.over_now() {
        let max = *ctx.rng.pick(&[4, 8, 12, 20, 40, 100, 300]);
        let mut pool: Vec<char> = set.to_vec();
        if ctx.rng.chance(2) { for _ in 0..4 { let c = *ctx.rng.pick(SPECIAL); pool.push(c); } }
        if ctx.rng.chance(3) && !ctx.chars.is_empty() { for _ in 0..4 { let i = ctx.rng.below(ctx.chars.len()); pool.push(ctx.chars[i]); } }
        let mut s = ctx.rng.text(&pool, max);
        if ctx.rng.chance(8) && !strs.is_empty() { let x = ctx.rng.pick(&strs).clone(); s = match ctx.rng.below(3) { 0 => x, 1 => format!("{s}{x}"), _ => format!("{x}{s}") }; }
        f(ctx, &s);
    }
}
impl Ctx {
    /// the random phase: at least 3000 cases, at most the time limit
    pub fn over_now(&mut self) -> bool {
        self.stopped || self.slice_end.map_or(false, |e| std::time::Instant::now() > e) || self.start.elapsed() > self.limit || (!self.thorough && self.evals > 400_000)
    }
}
