//! Numbers of every length: texts built digit by digit are their own oracle.
use pgnumeric::NumericBuf;
use std::fmt::Write;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1)
    }
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// sign, integer digits (at least one, no superfluous zeros), fraction digits
#[derive(Clone)]
struct Dec {
    neg: bool,
    int: Vec<u8>,
    frac: Vec<u8>,
}

impl Dec {
    fn text(&self) -> String {
        let mut s = String::with_capacity(self.int.len() + self.frac.len() + 2);
        if self.neg && self.int.iter().chain(&self.frac).any(|&d| d != b'0') {
            s.push('-');
        }
        s.push_str(std::str::from_utf8(&self.int).unwrap());
        if !self.frac.is_empty() {
            s.push('.');
            s.push_str(std::str::from_utf8(&self.frac).unwrap());
        }
        s
    }
    /// adds one to the last digit of the magnitude
    fn up(&mut self) {
        for d in self.frac.iter_mut().rev().chain(self.int.iter_mut().rev()) {
            if *d == b'9' {
                *d = b'0';
            } else {
                *d += 1;
                return;
            }
        }
        self.int.insert(0, b'1');
    }
    fn twice(&self) -> Dec {
        let mut r = self.clone();
        let mut carry = 0;
        for d in r.frac.iter_mut().rev().chain(r.int.iter_mut().rev()) {
            let x = (*d - b'0') * 2 + carry;
            *d = b'0' + x % 10;
            carry = x / 10;
        }
        if carry > 0 {
            r.int.insert(0, b'1');
        }
        r
    }
    fn cut(&self, k: usize) -> Dec {
        Dec { neg: self.neg, int: self.int.clone(), frac: self.frac[..k].to_vec() }
    }
    fn sci(&self) -> String {
        let all: Vec<u8> = self.int.iter().chain(&self.frac).copied().collect();
        let first = match all.iter().position(|&d| d != b'0') {
            Some(i) => i,
            None => return "0e+00".to_string(),
        };
        let last = all.iter().rposition(|&d| d != b'0').unwrap();
        let exp = self.int.len() as i64 - 1 - first as i64;
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s.push(all[first] as char);
        if last > first {
            s.push('.');
            s.push_str(std::str::from_utf8(&all[first + 1..=last]).unwrap());
        }
        let _ = write!(s, "e{}{:02}", if exp < 0 { '-' } else { '+' }, exp.abs());
        s
    }
    fn normal(&self) -> String {
        let mut x = self.clone();
        while x.frac.last() == Some(&b'0') {
            x.frac.pop();
        }
        x.text()
    }
}

fn digits(r: &mut Rng, n: usize, lead: bool) -> Vec<u8> {
    let mut v = vec![b'0'; n];
    match r.below(5) {
        0 => v.iter_mut().for_each(|d| *d = b'9'),
        1 => {
            if n > 0 {
                v[n - 1] = b'1'
            }
        }
        2 => {
            // zeros behind a while
            let k = r.below(n);
            v[..k].iter_mut().for_each(|d| *d = b'0' + r.below(10) as u8)
        }
        _ => v.iter_mut().for_each(|d| *d = b'0' + r.below(10) as u8),
    }
    if lead && n > 1 && v[0] == b'0' {
        v[0] = b'1' + r.below(9) as u8;
    }
    v
}

fn short(s: &str) -> String {
    if s.len() <= 60 {
        s.to_string()
    } else {
        format!("{}..{} ({} bytes)", &s[..30], &s[s.len() - 20..], s.len())
    }
}

macro_rules! same {
    ($n:ident, $what:expr, $got:expr, $want:expr) => {{
        $n += 1;
        let (g, w) = (&$got, &$want);
        if *g != *w {
            return Err(format!("{}: got {}, expected {}", $what, short(&g.to_string()), short(&w.to_string())));
        }
    }};
}

fn one(kind: &str, d: &Dec, r: &mut Rng) -> Result<u64, String> {
    let mut n = 0u64;
    let s = d.text();
    let v: NumericBuf = s.parse().map_err(|e| format!("parse: {:?}", e))?;
    match kind {
        "text" => {
            same!(n, "text", v.to_string(), s);
            same!(n, "text of the slice", v.as_numeric().to_string(), s);
            same!(n, "scale", format!("{:?}", v.scale()), format!("{:?}", Some(d.frac.len() as i32)));
        }
        "parse" => {
            let z = r.below(300);
            for t in [
                format!("{}{}{}", " ".repeat(z), s, "\n".repeat(r.below(9))),
                format!("{}{}{}", if s.starts_with('-') { "-" } else { "+" }, "0".repeat(z), s.trim_start_matches('-')),
                format!("{}e0", s),
            ] {
                let w: NumericBuf = t.parse().map_err(|e| format!("parse of {}: {:?}", short(&t), e))?;
                same!(n, "text", w.to_string(), s);
                same!(n, "bytes", format!("{:?}", w.as_bytes() == v.as_bytes()), "true");
            }
            // the point moved by an exponent
            if d.frac.len() >= 2 {
                let k = 1 + r.below(d.frac.len() - 1);
                let mut m = d.clone();
                let tail = m.frac.split_off(k);
                let mut i = m.int.clone();
                i.extend_from_slice(&m.frac);
                let moved = Dec { neg: d.neg, int: i, frac: tail };
                let t = format!("{}e-{}", moved.text(), k);
                let w: NumericBuf = t.parse().map_err(|e| format!("parse of {}: {:?}", short(&t), e))?;
                same!(n, "text after an exponent", w.to_string(), s);
            }
            for (i, junk) in [(s.len(), "x"), (r.below(s.len() + 1), ","), (0, "e")] {
                let mut t = s.clone();
                t.insert_str(i, junk);
                n += 1;
                if let Ok(w) = t.parse::<NumericBuf>() {
                    return Err(format!("{} with {:?} at {} was accepted as {}", short(&s), junk, i, short(&w.to_string())));
                }
            }
        }
        "sci" => {
            let e = d.sci();
            same!(n, "e form", format!("{:e}", v), e);
            same!(n, "E form", format!("{:E}", v), e.replace('e', "E"));
        }
        "norm" => {
            same!(n, "normalize", v.normalize(), d.normal());
        }
        "cmp" => {
            let mut u = d.clone();
            u.up();
            let w: NumericBuf = u.text().parse().unwrap();
            let mut more = d.clone();
            if more.frac.len() + 6 <= 16383 {
                more.frac.extend_from_slice(b"000000");
            }
            let x: NumericBuf = more.text().parse().unwrap();
            let bigger = !d.neg;
            same!(n, "cmp with the next number", format!("{:?}{:?}{}{}", v.cmp(&w), w.cmp(&v), v == w, v < w),
                if bigger { "LessGreaterfalsetrue" } else { "GreaterLessfalsefalse" });
            same!(n, "cmp with itself at a larger scale", format!("{:?}{:?}{}", v.cmp(&x), x.cmp(&v), v == x), "EqualEqualtrue");
        }
        "add" => {
            let mut u = d.clone();
            u.up();
            let mut step = Dec { neg: d.neg, int: vec![b'0'], frac: vec![b'0'; d.frac.len()] };
            match step.frac.last_mut() {
                Some(x) => *x = b'1',
                None => step.int[0] = b'1',
            }
            let w: NumericBuf = u.text().parse().unwrap();
            let t: NumericBuf = step.text().parse().unwrap();
            let none = "none".to_string();
            let show = |x: Option<NumericBuf>| x.map_or(none.clone(), |x| x.to_string());
            same!(n, "x + ulp", show(v.checked_add(&t)), u.text());
            same!(n, "x' - ulp", show(w.checked_sub(&t)), s);
            same!(n, "x + x", show(v.checked_add(&v)), d.twice().text());
            let zero = Dec { neg: false, int: vec![b'0'], frac: vec![b'0'; d.frac.len()] };
            same!(n, "x - x", show(v.checked_sub(&v)), zero.text());
            same!(n, "ulp - x'", show(t.checked_sub(&w)), Dec { neg: !d.neg, ..d.clone() }.text());
        }
        "mul" => {
            let none = "none".to_string();
            let show = |x: Option<NumericBuf>| x.map_or(none.clone(), |x| x.to_string());
            let (one, two, ten): (NumericBuf, NumericBuf, NumericBuf) = ("1".parse().unwrap(), "-2".parse().unwrap(), "0.1".parse().unwrap());
            same!(n, "x * 1", show(v.checked_mul(&one)), s);
            let t = d.twice();
            same!(n, "-2 * x", show(two.checked_mul(&v)), Dec { neg: !t.neg, ..t }.text());
            if d.frac.len() < 16383 {
                let mut m = d.clone();
                let last = m.int.pop().unwrap();
                m.frac.insert(0, last);
                if m.int.is_empty() {
                    m.int.push(b'0');
                }
                same!(n, "x * 0.1", show(v.checked_mul(&ten)), m.text());
            }
        }
        "divt" => {
            let none = "none".to_string();
            let show = |x: Option<NumericBuf>| x.map_or(none.clone(), |x| x.to_string());
            let (one, ten): (NumericBuf, NumericBuf) = ("1".parse().unwrap(), "10".parse().unwrap());
            same!(n, "trunc(x / 1)", show(v.checked_div_trunc(&one)), d.cut(0).text());
            let mut m = d.cut(0);
            let last = m.int.pop().unwrap();
            if m.int.is_empty() {
                m.int.push(b'0');
            }
            same!(n, "trunc(x / 10)", show(v.checked_div_trunc(&ten)), m.text());
            let rest = Dec { neg: d.neg, int: vec![last], frac: d.frac.clone() };
            same!(n, "x % 10", show(v.checked_rem(&ten)), rest.text());
        }
        "div" => {
            // x / 1 and x / -2 * 2 at scales where the quotient is exact
            let none = "none".to_string();
            let show = |x: Option<NumericBuf>| x.map_or(none.clone(), |x| x.normalize());
            let (one, two): (NumericBuf, NumericBuf) = ("1".parse().unwrap(), "-2".parse().unwrap());
            if d.frac.len() <= 1000 {
                same!(n, "x / 1", show(v.checked_div(&one)), d.normal());
                let t = d.twice();
                let w: NumericBuf = t.text().parse().unwrap();
                same!(n, "2x / -2", show(w.checked_div(&two)), Dec { neg: !d.neg, ..d.clone() }.normal());
            }
        }
        "round" => {
            let k = match r.below(4) {
                0 => 0,
                1 => d.frac.len().saturating_sub(1),
                _ => r.below(d.frac.len() + 1),
            };
            // beyond 1000 the scale asked for is limited
            if k <= 1000 {
                let t = d.cut(k);
                same!(n, format!("trunc at {}", k), v.trunc(k as i32).to_string(), t.text());
                let mut u = t.clone();
                if k < d.frac.len() && d.frac[k] >= b'5' {
                    u.up();
                }
                same!(n, format!("round at {}", k), v.round(k as i32).to_string(), u.text());
                let mut x = v.clone();
                x.round_mut(k as i32);
                same!(n, format!("round_mut at {}", k), x.to_string(), u.text());
            }
            let t = d.cut(0);
            let mut u = t.clone();
            u.up();
            let exact = d.frac.iter().all(|&c| c == b'0');
            same!(n, "ceil", v.ceil().to_string(), if exact || d.neg { &t } else { &u }.text());
            same!(n, "floor", v.floor().to_string(), if exact || !d.neg { &t } else { &u }.text());
        }
        "sign" => {
            let z = s.trim_start_matches('-');
            same!(n, "abs", v.abs().to_string(), z);
            same!(n, "negate", v.negate().to_string(), Dec { neg: !d.neg, ..d.clone() }.text());
            let mut w = v.clone();
            w.negate_mut();
            w.abs_mut();
            same!(n, "negate_mut, abs_mut", w.to_string(), z);
            same!(n, "clone", v.clone().to_string(), s);
            same!(n, "to_owned", v.as_numeric().to_owned().to_string(), s);
        }
        "serde" => {
            let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            same!(n, "json", j, format!("\"{}\"", s));
            same!(n, "json of the slice", serde_json::to_string(v.as_numeric()).map_err(|e| e.to_string())?, j);
            let w: NumericBuf = serde_json::from_str(&j).map_err(|e| e.to_string())?;
            same!(n, "from json", w.to_string(), s);
            let b = bincode::serialize(&v).map_err(|e| e.to_string())?;
            let w: NumericBuf = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            same!(n, "from bincode", w.to_string(), s);
            same!(n, "bytes", format!("{}", w.as_bytes() == v.as_bytes()), "true");
        }
        _ => return Err("unknown kind".into()),
    }
    Ok(n)
}

/// the digits with a point f places from the right
fn pointed(neg: bool, v: &[u8], f: usize) -> Dec {
    let mut v = v.to_vec();
    while v.len() < f + 1 {
        v.insert(0, b'0');
    }
    let frac = v.split_off(v.len() - f);
    let first = v.iter().position(|&d| d != b'0').unwrap_or(v.len() - 1);
    Dec { neg, int: v[first..].to_vec(), frac }
}

/// (10^a - 1) (10^b - 1), whose digits are known
fn nines(a: usize, b: usize, r: &mut Rng, kind: &str) -> Result<u64, String> {
    let mut n = 0;
    let (hi, lo) = (a.max(b), a.min(b));
    let mut p = vec![b'9'; hi + lo];
    p[lo - 1] = b'8';
    p[hi..].iter_mut().for_each(|d| *d = b'0');
    p[hi + lo - 1] = b'1';
    let (fa, fb) = match r.below(3) {
        0 => (0, 0),
        1 => (r.below(a + 1), 0),
        _ => (r.below(a + 1), r.below(b + 9)),
    };
    let (fa, fb) = (fa.min(8000), fb.min(8000));
    let (na, nb) = (r.below(2) == 0, r.below(2) == 0);
    let (x, y, z) = (pointed(na, &vec![b'9'; a], fa), pointed(nb, &vec![b'9'; b], fb), pointed(na != nb, &p, fa + fb));
    let num = |d: &Dec| d.text().parse::<NumericBuf>().map_err(|e| format!("parse: {:?}", e));
    let (u, v, w) = (num(&x)?, num(&y)?, num(&z)?);
    let none = "none".to_string();
    let show = |x: Option<NumericBuf>| x.map_or(none.clone(), |x| x.to_string());
    let norm = |x: Option<NumericBuf>| x.map_or(none.clone(), |x| x.normalize());
    match kind {
        "mul9" => {
            same!(n, "x * y", show(u.checked_mul(&v)), z.text());
            same!(n, "y * x", show(v.checked_mul(&u)), z.text());
        }
        "div9" => {
            if fa + fb <= 1000 {
                same!(n, "xy / x", norm(w.checked_div(&u)), y.normal());
                same!(n, "xy / y", norm(w.checked_div(&v)), x.normal());
            }
        }
        "divt9" => {
            same!(n, "trunc(xy / y)", show(w.checked_div_trunc(&v)), x.cut(0).text());
            same!(n, "trunc(xy / x)", show(w.checked_div_trunc(&u)), y.cut(0).text());
            // 10^a - 1 divides xy - x = x (y - 1), and leaves x as remainder of xy + y - 1 ...
            let zero = |f: usize| Dec { neg: false, int: vec![b'0'], frac: vec![b'0'; f] }.text();
            if fa == 0 && fb == 0 {
                same!(n, "xy % y", show(w.checked_rem(&v)), zero(0));
                same!(n, "xy % x", show(w.checked_rem(&u)), zero(0));
                let mut z1 = z.clone();
                z1.up();
                let one = Dec { neg: z.neg, int: vec![b'1'], frac: vec![] };
                if a > 1 && b > 1 {
                    same!(n, "(xy + 1) % y", show(num(&z1)?.checked_rem(&v)), one.text());
                    same!(n, "(xy + 1) % x", show(num(&z1)?.checked_rem(&u)), one.text());
                }
            }
        }
        "sqrt9" => {
            // the square of (10^a - 1) / 10^f
            let mut q = vec![b'9'; 2 * a];
            q[a - 1] = b'8';
            q[a..].iter_mut().for_each(|d| *d = b'0');
            q[2 * a - 1] = b'1';
            let f = fa.min(400);
            let s = num(&pointed(false, &q, 2 * f))?.sqrt();
            same!(n, "sqrt(xx)", s.normalize(), pointed(false, &vec![b'9'; a], f).normal());
        }
        _ => return Err("unknown kind".into()),
    }
    Ok(n)
}

/// every length from lo to hi (total digits), several shapes each
pub fn run(kind: &str, lo: usize, hi: usize, seed: u64) -> Result<u64, String> {
    let mut n = 0;
    if kind.ends_with('9') {
        for len in lo..=hi {
            let mut r = Rng::new(seed ^ (len as u64) << 20);
            let some = 1 + r.below(40);
            let any = 1 + r.below(len);
            let near = (len + 4 - r.below(9).min(len)).max(1);
            for b in [len, some, any, near] {
                n += nines(len, b, &mut r, kind).map_err(|m| format!("{} and {} nines: {}", len, b, m))?;
                if kind == "sqrt9" {
                    break;
                }
            }
        }
        return Ok(n);
    }
    for len in lo..=hi {
        let mut r = Rng::new(seed ^ (len as u64) << 20);
        for shape in 0..4 {
            let (i, f) = match shape {
                0 => (len, 0),
                1 => (1, len - 1),
                2 => (len - r.below(len.min(30)), 0),
                _ => {
                    let f = r.below(len);
                    (len - f, f)
                }
            };
            let f = if shape == 2 { len - i } else { f };
            let (i, f) = if f > 16383 { (i + f - 16383, 16383) } else { (i, f) };
            // room for a carry
            if i > 131071 {
                continue;
            }
            let mut d = Dec { neg: r.below(2) == 1, int: digits(&mut r, i, true), frac: digits(&mut r, f, false) };
            if shape == 1 && r.below(2) == 0 {
                d.int = vec![b'0'];
            }
            if d.int.iter().chain(&d.frac).all(|&c| c == b'0') {
                d.neg = false;
            }
            match one(kind, &d, &mut r) {
                Ok(k) => n += k,
                Err(m) => return Err(format!("{} integer and {} fraction digits, {}: {}", d.int.len(), d.frac.len(), short(&d.text()), m)),
            }
        }
    }
    Ok(n)
}
