//! Executes one case against the real API and describes what was observed.
use pgnumeric::{Numeric, NumericBuf, NumericParseError, NumericTryFromError, Typmod};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Operand bytes at a chosen offset from an 8-byte boundary, in a block of exactly the needed size.
pub struct Img {
    ptr: *mut u8,
    layout: std::alloc::Layout,
    off: usize,
    len: usize,
    pub orig: Vec<u8>,
}
unsafe impl Send for Img {}
unsafe impl Sync for Img {}

impl Img {
    pub fn new(bytes: &[u8], off: usize) -> Img {
        let layout = std::alloc::Layout::from_size_align(off + bytes.len().max(1), 8).unwrap();
        unsafe {
            let ptr = std::alloc::alloc_zeroed(layout);
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), ptr.add(off), bytes.len());
            Img { ptr, layout, off, len: bytes.len(), orig: bytes.to_vec() }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr.add(self.off), self.len) }
    }
    pub fn num(&self) -> &Numeric {
        unsafe { Numeric::from_bytes_unchecked(self.bytes()) }
    }
    pub fn intact(&self) -> bool {
        self.bytes() == &self.orig[..]
    }
}
impl Drop for Img {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout) }
    }
}

pub enum Arg {
    Img(Img),
    Str(String),
    // the very object of argument 0 once more
    Same,
}

pub struct Case {
    pub op: String,
    pub args: Vec<Arg>,
}

pub fn unhex(s: &str) -> Vec<u8> {
    fn v(c: u8) -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => panic!("bad hex"),
        }
    }
    s.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()
}

pub fn hex(out: &mut String, b: &[u8]) {
    const T: &[u8; 16] = b"0123456789abcdef";
    for &x in b {
        out.push(T[(x >> 4) as usize] as char);
        out.push(T[(x & 15) as usize] as char);
    }
}

impl Case {
    pub fn parse(op: &str, rest: &mut dyn Iterator<Item = &str>) -> Case {
        let mut args = Vec::new();
        for a in rest {
            if let Some(h) = a.strip_prefix('#') {
                args.push(Arg::Img(Img::new(&unhex(h), 0)));
            } else if let Some(h) = a.strip_prefix('@') {
                let off = (h.as_bytes()[0] - b'0') as usize;
                args.push(Arg::Img(Img::new(&unhex(&h[1..]), off)));
            } else if a == "=0" {
                args.push(Arg::Same);
            } else {
                args.push(Arg::Str(a.to_string()));
            }
        }
        Case { op: op.to_string(), args }
    }
    pub fn n(&self, i: usize) -> &Numeric {
        match &self.args[i] {
            Arg::Img(m) => m.num(),
            Arg::Same => self.n(0),
            _ => panic!("arg"),
        }
    }
    pub fn s(&self, i: usize) -> &str {
        match &self.args[i] {
            Arg::Str(m) => m,
            _ => panic!("arg"),
        }
    }
    fn i(&self, i: usize) -> i32 {
        self.s(i).parse().unwrap()
    }
}

fn buf(o: &mut String, n: &NumericBuf) {
    o.push('B');
    hex(o, n.as_bytes());
}
fn optbuf(o: &mut String, n: Option<NumericBuf>) {
    match n {
        Some(n) => buf(o, &n),
        None => o.push('N'),
    }
}
fn text(o: &mut String, s: &str) {
    o.push('T');
    hex(o, s.as_bytes());
}
fn perr(e: &NumericParseError) -> &'static str {
    match e.to_string().as_str() {
        "cannot parse numeric from empty string" => "Eempty",
        "invalid numeric literal" => "Einvalid",
        "value overflows numeric format" => "Eoverflow",
        _ => "Eunknown",
    }
}
fn terr(e: &NumericTryFromError) -> &'static str {
    match e.to_string().as_str() {
        "cannot convert to numeric" => "Einvalid",
        "value is out of range" => "Eoverflow",
        _ => "Eunknown",
    }
}

/// Runs `f`, appending what it returns, or `P<message>` if it panicked.
fn guard(o: &mut String, f: impl FnOnce(&mut String)) {
    let mark = o.len();
    let r = catch_unwind(AssertUnwindSafe(|| f(o)));
    if r.is_err() {
        o.truncate(mark);
        o.push('P');
        PANIC.with(|p| {
            let p = p.borrow();
            hex(o, p.as_bytes());
        });
    }
}

/// Outcome of a computation as a comparable value.
#[derive(PartialEq, Eq, Clone, Debug)]
enum Out {
    Bytes(Vec<u8>),
    Panic(String),
}
fn outcome(f: impl FnOnce() -> NumericBuf) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(n) => Out::Bytes(n.as_bytes().to_vec()),
        Err(_) => Out::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}

fn outcome_opt(f: impl FnOnce() -> Option<NumericBuf>) -> Option<Out> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(n) => n.map(|n| Out::Bytes(n.as_bytes().to_vec())),
        Err(_) => Some(Out::Panic(PANIC.with(|p| p.borrow().clone()))),
    }
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for &b in &self.0 {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(1);
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
    fn write_u8(&mut self, v: u8) { self.0.push(2); self.0.push(v) }
    fn write_i8(&mut self, v: i8) { self.0.push(3); self.0.push(v as u8) }
    fn write_i16(&mut self, v: i16) { self.0.push(4); self.0.extend_from_slice(&v.to_le_bytes()) }
    fn write_i32(&mut self, v: i32) { self.0.push(5); self.0.extend_from_slice(&v.to_le_bytes()) }
    fn write_usize(&mut self, v: usize) { self.0.push(6); self.0.extend_from_slice(&v.to_le_bytes()) }
}
fn hash_of<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

macro_rules! cmp_forms {
    ($bad:ident, $n:ident, $e:expr, $($name:literal : $l:expr, $r:expr;)*) => {$(
        $n += 7;
        let e: Ordering = $e;
        if ($l == $r) != (e == Ordering::Equal) { $bad.push(concat!($name, "==")) }
        if ($l != $r) != (e != Ordering::Equal) { $bad.push(concat!($name, "!=")) }
        if ($l < $r) != (e == Ordering::Less) { $bad.push(concat!($name, "<")) }
        if ($l <= $r) != (e != Ordering::Greater) { $bad.push(concat!($name, "<=")) }
        if ($l > $r) != (e == Ordering::Greater) { $bad.push(concat!($name, ">")) }
        if ($l >= $r) != (e != Ordering::Less) { $bad.push(concat!($name, ">=")) }
        if PartialOrd::partial_cmp(&$l, &$r) != Some(e) { $bad.push(concat!($name, "partial_cmp")) }
    )*};
}

fn do_cmp(o: &mut String, a: &Numeric, b: &Numeric) {
    let ab = a.to_owned();
    let bb = b.to_owned();
    let e = Ord::cmp(a, b);
    let mut bad: Vec<&str> = Vec::new();
    let mut n = 0;
    cmp_forms!(bad, n, e,
        "buf,buf": ab, bb;
        "&buf,buf": (&ab), bb;
        "buf,&buf": ab, (&bb);
        "num,num": *a, *b;
        "&num,num": a, *b;
        "num,&num": *a, b;
        "buf,num": ab, *b;
        "buf,&num": ab, b;
        "num,buf": *a, bb;
        "&num,buf": a, bb;
        "&num,&num": a, b;
        "&buf,&buf": (&ab), (&bb);
    );
    n += 4;
    if Ord::cmp(&ab, &bb) != e { bad.push("buf cmp") }
    if Ord::cmp(&a, &b) != e { bad.push("&num cmp") }
    if (Ord::max(&ab, &bb) == &ab) != (e == Ordering::Greater || ab == bb) { bad.push("max") }
    if (Ord::min(&ab, &bb) == &ab) != (e != Ordering::Greater) { bad.push("min") }
    let _ = write!(o, "C{}\t{}\t{}", e as i32, n, bad.join(","));
}

fn do_hash(o: &mut String, a: &Numeric) {
    // NumericBuf and Numeric, owned copy and as given, must feed the same data to a Hasher
    let h = hash_of(a);
    let owned = a.to_owned();
    let mut same = hash_of(&owned) == h;
    same &= hash_of(&a) == h;
    same &= hash_of(&owned.clone()) == h;
    same &= hash_of(std::borrow::Borrow::<Numeric>::borrow(&owned)) == h;
    let mut m = std::collections::HashMap::new();
    m.insert(owned, 1);
    same &= m.contains_key(a);
    o.push('H');
    o.push(if same { '1' } else { '0' });
    o.push('\t');
    if h.len() <= 4096 {
        hex(o, &h);
    } else {
        let mut r = Rec::default();
        r.0 = h;
        let _ = write!(o, "fnv{:016x}-{}", r.finish(), r.0.len());
    }
    o.push('\t');
    text(o, &a.normalize());
}

macro_rules! bin_forms {
    ($bad:ident, $n:ident, $a:ident, $b:ident, $name:literal, $op:tt, $opa:tt, $chk:ident, $isdiv:expr) => {{
        let want = match catch_unwind(AssertUnwindSafe(|| $a.$chk($b))) {
            Ok(Some(r)) => Ok(r.as_bytes().to_vec()),
            Ok(None) => {
                if $isdiv && $b == Numeric::zero() { Err("attempt to divide by zero") } else { Err("value overflows numeric format") }
            }
            Err(_) => Err("<checked panicked>"),
        };
        let a0 = $a.to_owned();
        let b0 = $b.to_owned();
        let (ab, bb) = (a0.as_bytes().to_vec(), b0.as_bytes().to_vec());
        let mut check = |form: &str, got: Out| {
            $n += 1;
            let ok = match (&want, &got) {
                (Ok(w), Out::Bytes(g)) => w == g,
                (Err("<checked panicked>"), Out::Panic(_)) => true,
                (Err(w), Out::Panic(m)) => m.contains(w),
                _ => false,
            };
            if !ok {
                let mut s = String::new();
                let _ = write!(s, "{} {} -> ", $name, form);
                match got {
                    Out::Bytes(b) => hex(&mut s, &b),
                    Out::Panic(m) => s.push_str(&format!("panic {:?}", m)),
                }
                $bad.push(s);
            }
        };
        check("&num,&num", outcome(|| $a $op $b));
        check("&num,&buf", outcome(|| $a $op &b0));
        check("&buf,&num", outcome(|| &a0 $op $b));
        check("&buf,&buf", outcome(|| &a0 $op &b0));
        let x = a0.clone(); check("buf,&num", outcome(move || x $op $b));
        let x = a0.clone(); check("buf,&buf", outcome(|| x $op &b0));
        let y = b0.clone(); check("&num,buf", outcome(move || $a $op y));
        let y = b0.clone(); check("&buf,buf", outcome(|| &a0 $op y));
        let (x, y) = (a0.clone(), b0.clone()); check("buf,buf", outcome(move || x $op y));
        // assignment: on failure the target must keep its value
        let mut asg = |form: &str, r: Result<(), ()>, x: &NumericBuf| {
            match r {
                Ok(()) => check(form, Out::Bytes(x.as_bytes().to_vec())),
                Err(()) => {
                    check(form, Out::Panic(PANIC.with(|p| p.borrow().clone())));
                    if x.as_bytes() != &ab[..] { check(&format!("{form} changed by failure"), Out::Bytes(x.as_bytes().to_vec())) }
                }
            }
        };
        let mut x = a0.clone(); let r = catch_unwind(AssertUnwindSafe(|| x $opa $b)).map_err(|_| ()); asg("buf=&num", r, &x);
        let mut x = a0.clone(); let r = catch_unwind(AssertUnwindSafe(|| x $opa &b0)).map_err(|_| ()); asg("buf=&buf", r, &x);
        let mut x = a0.clone(); let y = b0.clone(); let r = catch_unwind(AssertUnwindSafe(|| x $opa y)).map_err(|_| ()); asg("buf=buf", r, &x);
        if a0.as_bytes() != &ab[..] || b0.as_bytes() != &bb[..] {
            $bad.push(format!("{} changed an operand passed by reference", $name));
        }
    }};
}

fn do_forms(o: &mut String, a: &Numeric, b: &Numeric) {
    let mut bad: Vec<String> = Vec::new();
    let mut n = 0u32;
    bin_forms!(bad, n, a, b, "+", +, +=, checked_add, false);
    bin_forms!(bad, n, a, b, "-", -, -=, checked_sub, false);
    bin_forms!(bad, n, a, b, "*", *, *=, checked_mul, false);
    bin_forms!(bad, n, a, b, "/", /, /=, checked_div, true);
    bin_forms!(bad, n, a, b, "%", %, %=, checked_rem, true);
    for x in [a, b] {
        let w = x.negate();
        let xb = x.to_owned();
        n += 3;
        if outcome(|| -x) != Out::Bytes(w.as_bytes().to_vec()) { bad.push("neg &num".into()) }
        if outcome(|| -&xb) != Out::Bytes(w.as_bytes().to_vec()) { bad.push("neg &buf".into()) }
        if outcome(|| -xb) != Out::Bytes(w.as_bytes().to_vec()) { bad.push("neg buf".into()) }
    }
    // one object as both operands, against two objects
    macro_rules! alias {
        ($name:literal, $op:tt, $chk:ident, $isdiv:expr, $x:ident) => {{
            let (xb, yb) = ($x.to_owned(), $x.to_owned());
            let want = match $x.$chk(&yb) {
                Some(r) => Ok(r.as_bytes().to_vec()),
                None if $isdiv && $x == Numeric::zero() => Err("attempt to divide by zero"),
                None => Err("value overflows numeric format"),
            };
            let same = outcome_opt(|| $x.$chk($x));
            for (form, got) in [
                ("checked", same),
                ("&num,&num", Some(outcome(|| $x $op $x))),
                ("&buf,&buf", Some(outcome(|| &xb $op &xb))),
                ("&buf,&num", Some(outcome(|| &xb $op xb.as_numeric()))),
                ("&num,&buf", Some(outcome(|| xb.as_numeric() $op &xb))),
            ] {
                n += 1;
                let ok = match (&want, &got) {
                    (Ok(w), Some(Out::Bytes(g))) => w == g,
                    (Err(w), Some(Out::Panic(m))) => m.contains(w),
                    (Err(_), None) => true,
                    _ => false,
                };
                if !ok {
                    let mut s = format!("x {} x with one object {} -> ", $name, form);
                    match got {
                        Some(Out::Bytes(b)) => hex(&mut s, &b),
                        Some(Out::Panic(m)) => s.push_str(&format!("panic {:?}", m)),
                        None => s.push_str("None"),
                    }
                    bad.push(s);
                }
            }
        }};
    }
    for x in [a, b] {
        if x.as_bytes().len() > 600 {
            continue;
        }
        alias!("+", +, checked_add, false, x);
        alias!("-", -, checked_sub, false, x);
        alias!("*", *, checked_mul, false, x);
        alias!("/", /, checked_div, true, x);
        alias!("%", %, checked_rem, true, x);
    }
    let _ = write!(o, "F{}\t{}", n, bad.join(";"));
}

macro_rules! to_int {
    ($o:ident, $x:ident, $t:ty) => {{
        fn show(r: Result<$t, NumericTryFromError>) -> String {
            match r {
                Ok(v) => format!("I{}", v),
                Err(e) => terr(&e).to_string(),
            }
        }
        let b = $x.to_owned();
        let r1 = show(<$t>::try_from($x));
        let r2 = show(<$t>::try_from(&b));
        let r3 = show(<$t>::try_from(b));
        $o.push_str(&r1);
        if r2 != r1 || r3 != r1 {
            let _ = write!($o, "!forms differ: {} {} {}", r1, r2, r3);
        }
    }};
}
macro_rules! to_float {
    ($o:ident, $x:ident, $t:ty) => {{
        fn show(r: Result<$t, NumericTryFromError>) -> String {
            match r {
                Ok(v) if v.is_nan() => "Dnan".to_string(),
                Ok(v) => format!("D{:x}", v.to_bits()),
                Err(e) => terr(&e).to_string(),
            }
        }
        let b = $x.to_owned();
        let r1 = show(<$t>::try_from($x));
        let r2 = show(<$t>::try_from(&b));
        let r3 = show(<$t>::try_from(b));
        $o.push_str(&r1);
        if r2 != r1 || r3 != r1 {
            let _ = write!($o, "!forms differ: {} {} {}", r1, r2, r3);
        }
    }};
}

fn typmod(v: &str) -> Typmod {
    if v == "default" {
        return Typmod::default();
    }
    let (p, s) = v.split_once(',').unwrap();
    Typmod::new(p.parse().unwrap(), s.parse().unwrap()).expect("typmod")
}

fn consume(y: NumericBuf, t: &str) -> String {
    macro_rules! go {
        ($($n:literal $t:ty),*) => {
            match t {
                $($n => match <$t>::try_from(y) { Ok(v) => format!("I{}", v), Err(e) => terr(&e).to_string() },)*
                "f32" => match f32::try_from(y) { Ok(v) if v.is_nan() => "Dnan".to_string(), Ok(v) => format!("D{:x}", v.to_bits()), Err(e) => terr(&e).to_string() },
                "f64" => match f64::try_from(y) { Ok(v) if v.is_nan() => "Dnan".to_string(), Ok(v) => format!("D{:x}", v.to_bits()), Err(e) => terr(&e).to_string() },
                _ => panic!("type {t}"),
            }
        };
    }
    go!("i8" i8, "i16" i16, "i32" i32, "i64" i64, "i128" i128, "isize" isize, "u8" u8, "u16" u16, "u32" u32, "u64" u64, "u128" u128, "usize" usize)
}

/// In-place history: returns the image after every step.
fn do_hist(o: &mut String, start: &Numeric, steps: &str) {
    let mut x = start.to_owned();
    let mut forks: Vec<(NumericBuf, Vec<u8>)> = Vec::new();
    o.push('S');
    hex(o, x.as_bytes());
    for st in steps.split(';') {
        let (k, v) = st.split_once(':').unwrap_or((st, ""));
        let operand = if let Some(h) = v.strip_prefix('#') { Some(Img::new(&unhex(h), 0)) } else { None };
        let before = x.as_bytes().to_vec();
        let mut flag: Option<bool> = None;
        let mut say = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| {
            match k {
                "neg" => x.negate_mut(),
                "abs" => x.abs_mut(),
                "round" => x.round_mut(v.parse().unwrap()),
                "trunc" => x.trunc_mut(v.parse().unwrap()),
                "typmod" => flag = Some(x.apply_typmod(typmod(v))),
                // operand by &Numeric, by value, by &NumericBuf, and the consuming operator with assignment
                "add" => x += operand.as_ref().unwrap().num(),
                "addv" => { let y = operand.as_ref().unwrap().num().to_owned(); x += y }
                "addb" => { let y = operand.as_ref().unwrap().num().to_owned(); x += &y }
                "addn" => x = &x + operand.as_ref().unwrap().num(),
                "sub" => x -= operand.as_ref().unwrap().num(),
                "subv" => { let y = operand.as_ref().unwrap().num().to_owned(); x -= y }
                "subb" => { let y = operand.as_ref().unwrap().num().to_owned(); x -= &y }
                "subn" => x = &x - operand.as_ref().unwrap().num(),
                "mul" => x *= operand.as_ref().unwrap().num(),
                "mulv" => { let y = operand.as_ref().unwrap().num().to_owned(); x *= y }
                "mulb" => { let y = operand.as_ref().unwrap().num().to_owned(); x *= &y }
                "muln" => x = &x * operand.as_ref().unwrap().num(),
                "div" => x /= operand.as_ref().unwrap().num(),
                "divv" => { let y = operand.as_ref().unwrap().num().to_owned(); x /= y }
                "divb" => { let y = operand.as_ref().unwrap().num().to_owned(); x /= &y }
                "divn" => x = &x / operand.as_ref().unwrap().num(),
                "rem" => x %= operand.as_ref().unwrap().num(),
                "remv" => { let y = operand.as_ref().unwrap().num().to_owned(); x %= y }
                "remb" => { let y = operand.as_ref().unwrap().num().to_owned(); x %= &y }
                "remn" => x = &x % operand.as_ref().unwrap().num(),
                "addself" => { let y = x.clone(); x += &y }
                "subself" => { let y = x.clone(); x -= y }
                "mulself" => { let y = x.clone(); x *= y.as_numeric() }
                "clone" => { let y = x.clone(); x = y }
                "own" => { let y = x.as_numeric().to_owned(); x = y }
                "cow" => {
                    let c: std::borrow::Cow<Numeric> = (&x).into();
                    let y = c.into_owned();
                    let c: std::borrow::Cow<Numeric> = y.into();
                    if !matches!(&c, std::borrow::Cow::Owned(z) if z.as_bytes() == x.as_bytes()) { panic!("the Cow of an owned value is another value") }
                    x = c.into_owned()
                }
                "cowmut" => {
                    let y = {
                        let mut c: std::borrow::Cow<Numeric> = x.as_numeric().into();
                        c.to_mut().negate_mut();
                        c.to_mut().negate_mut();
                        c.into_owned()
                    };
                    x = y
                }
                "fork" => { let c = x.clone(); forks.push((c, before.clone())) }
                "swapfork" => {
                    // continue with a clone, keep the original as the witness
                    let c = x.clone();
                    let old = std::mem::replace(&mut x, c);
                    forks.push((old, before.clone()));
                }
                "mutfork" => {
                    // mutate a clone, the original must not notice
                    let mut c = x.clone();
                    c.negate_mut();
                    c.round_mut(0);
                    c.abs_mut();
                    drop(c);
                }
                "clonefrom" => {
                    // into values that are shorter, similar and longer
                    for z in [NumericBuf::zero(), x.clone(), NumericBuf::nan(), NumericBuf::factorial(40).unwrap(), -x.clone()] {
                        let mut z = z;
                        z.clone_from(&x);
                        if z.as_bytes() != x.as_bytes() { panic!("clone_from made something else") }
                        x = z;
                    }
                }
                "inc" => x = x.inc(),
                // conversions that use the value up: afterwards a copy goes on
                "to" => {
                    let keep = x.clone();
                    let y = std::mem::replace(&mut x, keep);
                    say = consume(y, v);
                }
                "negv" => {
                    let y = std::mem::replace(&mut x, NumericBuf::zero());
                    x = -y
                }
                "negb" => x = -&x,
                "negn" => x = -x.as_numeric(),
                "reparse" => x = x.to_string().parse().unwrap(),
                "bin" => x = bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap(),
                "json" => x = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap(),
                "round2" => { let d: i32 = v.parse().unwrap(); x = x.round(d) }
                "trunc2" => { let d: i32 = v.parse().unwrap(); x = x.trunc(d) }
                "ceil" => x = x.ceil(),
                "floor" => x = x.floor(),
                "sign" => x = x.signum(),
                "checked" => { if let Some(y) = x.checked_add(operand.as_ref().unwrap().num()) { x = y } }
                _ => panic!("step {k}"),
            }
        }));
        o.push('\t');
        match (r, flag) {
            (Err(_), _) => {
                o.push('P');
                PANIC.with(|p| hex(o, p.borrow().as_bytes()));
                o.push('/');
            }
            (_, Some(f)) => o.push_str(if f { "V1/" } else { "V0/" }),
            _ if !say.is_empty() => {
                o.push('V');
                o.push_str(&say);
                o.push('/');
            }
            _ => o.push_str("-/"),
        }
        hex(o, x.as_bytes());
        if let Some(i) = &operand {
            if !i.intact() { o.push_str("!operand modified") }
        }
        for (f, w) in &forks {
            if f.as_bytes() != &w[..] { o.push_str("!clone changed") }
        }
    }
    // the value stays usable to the end
    let _ = x.to_string();
}

fn do_serde(o: &mut String, a: &Numeric) {
    let b = a.to_owned();
    let mut bad: Vec<String> = Vec::new();
    let j = serde_json::to_string(&b).unwrap();
    let j2 = serde_json::to_string(a).unwrap();
    if j != j2 { bad.push(format!("json of owned {j} and borrowed {j2} differ")) }
    text(o, &j);
    o.push('\t');
    // JSON back
    let mut back = |name: &str, r: Result<NumericBuf, String>| match r {
        Ok(n) => {
            if n.as_bytes() != b.as_bytes() {
                let mut s = format!("{name} gave ");
                hex(&mut s, n.as_bytes());
                bad.push(s)
            }
        }
        Err(e) => bad.push(format!("{name}: {e}")),
    };
    back("json str", serde_json::from_str::<NumericBuf>(&j).map_err(|e| e.to_string()));
    back("json slice", serde_json::from_slice::<NumericBuf>(j.as_bytes()).map_err(|e| e.to_string()));
    back("json reader", serde_json::from_reader::<_, NumericBuf>(j.as_bytes()).map_err(|e| e.to_string()));
    back("json value", serde_json::to_value(&b).and_then(serde_json::from_value::<NumericBuf>).map_err(|e| e.to_string()));
    let esc: String = {
        // the same string written with \u escapes
        let mut s = String::from("\"");
        for c in j.trim_matches('"').chars() { let _ = write!(s, "\\u{:04x}", c as u32); }
        s.push('"');
        s
    };
    if esc.len() < 5000 {
        back("json escaped", serde_json::from_str::<NumericBuf>(&esc).map_err(|e| e.to_string()));
    }
    // bincode
    let s1 = bincode::serialize(&b).unwrap();
    let s2 = bincode::serialize(a).unwrap();
    hex(o, &s1);
    o.push('\t');
    hex(o, &s2);
    o.push('\t');
    back("bincode owned", bincode::deserialize::<NumericBuf>(&s1).map_err(|e| e.to_string()));
    back("bincode reader", bincode::deserialize_from::<_, NumericBuf>(&s1[..]).map_err(|e| e.to_string()));
    back("bincode of borrowed", bincode::deserialize::<NumericBuf>(&s2).map_err(|e| e.to_string()).map(|n| n.as_numeric().to_owned()));
    match bincode::deserialize::<&Numeric>(&s2) {
        Ok(n) => {
            if n.as_bytes() != a.as_bytes() { bad.push("bincode borrowed bytes differ".into()) }
            if n != a && !a.is_nan() { bad.push("bincode borrowed value differs".into()) }
        }
        Err(e) => bad.push(format!("bincode borrowed: {e}")),
    }
    // inside other data, so that the image sits at other alignments
    for pad in 0..3usize {
        let w = (vec![7u8; pad], a, b.clone());
        let s = bincode::serialize(&w).unwrap();
        match bincode::deserialize::<(Vec<u8>, &Numeric, NumericBuf)>(&s) {
            Ok(w2) => {
                if w2.1.to_string() != b.to_string() { bad.push(format!("borrowed inside a struct (pad {pad}) differs")) }
                if w2.2.as_bytes() != b.as_bytes() { bad.push(format!("owned inside a struct (pad {pad}) differs")) }
            }
            Err(e) => bad.push(format!("struct pad {pad}: {e}")),
        }
    }
    let mut t = String::new();
    for s in bad { t.push_str(&s); t.push(';') }
    text(o, &t);
}

/// Uses a deserialized value in every cheap way, so that a bad image shows.
fn exercise(n: &Numeric) -> usize {
    let mut k = n.to_string().len() + n.normalize().len();
    k += n.negate().as_bytes().len() + n.abs().as_bytes().len() + n.signum().as_bytes().len();
    k += n.trunc(0).as_bytes().len() + n.round(2).as_bytes().len();
    k += n.checked_add(Numeric::zero()).map_or(0, |x| x.as_bytes().len());
    k += n.checked_sub(n).map_or(0, |x| x.as_bytes().len());
    k += hash_of(n).len();
    k += (n == Numeric::zero()) as usize + (n > Numeric::nan()) as usize;
    k += i64::try_from(n).unwrap_or(0) as usize & 1;
    k
}

/// A sink that takes `left` bytes and then fails.
struct Sink { got: String, left: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

impl std::io::Write for Sink {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !s.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = s.len().min(self.left);
        self.left -= n;
        for b in &s[..n] {
            self.got.push(*b as char)
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Writing to a sink that fails after k bytes, for many k: one letter per k (in the order of `ks`):
/// o written in full, f failed having written the start of the text, and capitals for anything else.
fn failing(o: &mut String, want: &str, ks: &[usize], f: &dyn Fn(&mut Sink) -> bool) {
    for &k in ks {
        let mut w = Sink { got: String::new(), left: k };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut w)));
        let full = w.got == want;
        let start = want.starts_with(w.got.as_str());
        o.push(match r {
            Ok(true) if full => 'o',
            Ok(false) if start => 'f',
            Ok(true) => 'O',
            Ok(false) => 'F',
            Err(_) => 'P',
        });
    }
}

/// The same call over and over in one process: every outcome must be the first one.
fn soak(c: &Case, o: &mut String) {
    let n: usize = c.s(0).parse().unwrap();
    let inner = Case {
        op: c.s(1).to_string(),
        args: c.args[2..].iter().map(|a| match a { Arg::Img(m) => Arg::Img(Img::new(m.bytes(), 0)), Arg::Str(s) => Arg::Str(s.clone()), Arg::Same => Arg::Same }).collect(),
    };
    let mut first = String::new();
    exec(&inner, &mut first);
    let mut p = String::with_capacity(first.len());
    for k in 1..n {
        p.clear();
        exec(&inner, &mut p);
        if p != first {
            o.push_str(&first);
            o.push_str(&format!("\t!call {} of the same operation gives {}", k + 1, p.replace('\t', " ")));
            return;
        }
    }
    o.push_str(&first);
}

pub fn exec(c: &Case, o: &mut String) {
    let op = c.op.as_str();
    match op {
        "soak" => soak(c, o),
        "lens" => guard(o, |o| match crate::lens::run(c.s(0), c.s(1).parse().unwrap(), c.s(2).parse().unwrap(), c.s(3).parse().unwrap()) {
            Ok(n) => o.push_str(&format!("L{}", n)),
            Err(m) => {
                o.push_str("L0\t");
                text(o, &m);
            }
        }),
        "parse" => {
            let t = unhex(c.s(0));
            match String::from_utf8(t) {
                Ok(t) => guard(o, |o| match t.parse::<NumericBuf>() {
                    Ok(n) => buf(o, &n),
                    Err(e) => o.push_str(perr(&e)),
                }),
                Err(_) => o.push_str("Eutf8"),
            }
        }
        "text" => {
            let a = c.n(0);
            guard(o, |o| {
                let t = a.to_string();
                let ab = a.to_owned();
                if ab.to_string() != t || format!("{}", &a) != t { o.push('!') }
                // whatever the formatter's flags, no digit is lost
                if t.len() < 500 && (format!("{:>64.3}", a).trim() != t || format!("{:<9.0}", ab).trim() != t || format!("{:#12}", a).trim() != t) { o.push('!') }
                text(o, &t);
                o.push('\t');
                match t.parse::<NumericBuf>() {
                    Ok(n) => buf(o, &n),
                    Err(e) => o.push_str(perr(&e)),
                }
                o.push('\t');
                buf(o, &ab);
            })
        }
        "wfail" => {
            use std::fmt::Write as W;
            let a = c.n(0);
            let ab = a.to_owned();
            let bin = |s: Vec<u8>| s.iter().map(|&b| b as char).collect::<String>();
            let show: [(&str, String, &dyn Fn(&mut Sink) -> bool); 8] = [
                ("text", a.to_string(), &|w| write!(w, "{}", a).is_ok()),
                ("text", ab.to_string(), &|w| write!(w, "{}", ab).is_ok()),
                ("sci", format!("{:e}", a), &|w| write!(w, "{:e}", a).is_ok()),
                ("sci", format!("{:E}", ab), &|w| write!(w, "{:E}", ab).is_ok()),
                ("json", serde_json::to_string(&ab).unwrap(), &|w| serde_json::to_writer(w, &ab).is_ok()),
                ("json", serde_json::to_string(a).unwrap(), &|w| serde_json::to_writer(w, a).is_ok()),
                ("bincode", bin(bincode::serialize(&ab).unwrap()), &|w| bincode::serialize_into(w, &ab).is_ok()),
                ("bincode", bin(bincode::serialize(a).unwrap()), &|w| bincode::serialize_into(w, a).is_ok()),
            ];
            for (i, (what, want, f)) in show.iter().enumerate() {
                let n = want.chars().count();
                let ks: Vec<usize> = if n <= 120 { (0..=n + 1).collect() } else { (0..24).chain((1..8).map(|i| n * i / 8)).chain(n - 24..=n + 1).collect() };
                if i > 0 { o.push('\t') }
                let _ = write!(o, "W{}/{}/", what, n);
                failing(o, want, &ks, f);
                let _ = write!(o, "/{}", ks.iter().filter(|&&k| k < n).count());
            }
        }
        "typmods" => {
            // every scale from -2 to precision + 2
            let p: i32 = c.s(0).parse().unwrap();
            guard(o, |o| {
                o.push('L');
                for s in -2..=(p.max(0).min(1100) + 2) {
                    match Typmod::new(p, s) {
                        None => o.push('N'),
                        Some(t) => {
                            let u = unsafe { Typmod::from_value_unchecked(t.value()) };
                            let v = unsafe { Typmod::new_unchecked(p, s) };
                            let _ = write!(o, "{},{:?},{},{}", t.value(), t.extract(), t, (t == u && u.extract() == t.extract() && v == t && t != Typmod::default()) as u8);
                        }
                    }
                    o.push(';');
                }
            })
        }
        "sci" => {
            let a = c.n(0);
            guard(o, |o| {
                let t = format!("{:e}", a);
                let u = format!("{:E}", a);
                let ab = a.to_owned();
                if format!("{:e}", ab) != t || format!("{:E}", ab) != u { o.push('!') }
                if t.len() < 500 && (format!("{:>64e}", a).trim() != t || format!("{:<9E}", ab).trim() != u) { o.push('!') }
                text(o, &t);
                o.push('\t');
                text(o, &u);
                o.push('\t');
                match t.parse::<NumericBuf>() {
                    Ok(n) => buf(o, &n),
                    Err(e) => o.push_str(perr(&e)),
                }
            })
        }
        "add" => guard(o, |o| optbuf(o, c.n(0).checked_add(c.n(1)))),
        "sub" => guard(o, |o| optbuf(o, c.n(0).checked_sub(c.n(1)))),
        "mul" => guard(o, |o| optbuf(o, c.n(0).checked_mul(c.n(1)))),
        "div" => guard(o, |o| optbuf(o, c.n(0).checked_div(c.n(1)))),
        "dtrunc" => guard(o, |o| optbuf(o, c.n(0).checked_div_trunc(c.n(1)))),
        "rem" => guard(o, |o| optbuf(o, c.n(0).checked_rem(c.n(1)))),
        "pow" => guard(o, |o| optbuf(o, c.n(0).pow(c.n(1)))),
        "log" => guard(o, |o| buf(o, &c.n(0).log(c.n(1)))),
        "sqrt" => guard(o, |o| buf(o, &c.n(0).sqrt())),
        "ln" => guard(o, |o| buf(o, &c.n(0).ln())),
        "log2" => guard(o, |o| buf(o, &c.n(0).log2())),
        "log10" => guard(o, |o| buf(o, &c.n(0).log10())),
        "exp" => guard(o, |o| optbuf(o, c.n(0).exp())),
        "fact" => guard(o, |o| optbuf(o, NumericBuf::factorial(c.s(0).parse().unwrap()))),
        "round" | "trunc" => {
            let k = c.i(1);
            let rd = op == "round";
            guard(o, |o| buf(o, &if rd { c.n(0).round(k) } else { c.n(0).trunc(k) }));
            o.push('\t');
            guard(o, |o| {
                let mut x = c.n(0).to_owned();
                if rd { x.round_mut(k) } else { x.trunc_mut(k) }
                buf(o, &x)
            });
        }
        "ceil" => guard(o, |o| buf(o, &c.n(0).ceil())),
        "floor" => guard(o, |o| buf(o, &c.n(0).floor())),
        "sign" => {
            // negate, abs, signum, inc, then the in-place forms, then the predicates
            let a = c.n(0);
            guard(o, |o| buf(o, &a.negate()));
            o.push('\t');
            guard(o, |o| buf(o, &a.abs()));
            o.push('\t');
            guard(o, |o| buf(o, &a.signum()));
            o.push('\t');
            guard(o, |o| buf(o, &a.inc()));
            o.push('\t');
            guard(o, |o| { let mut x = a.to_owned(); x.negate_mut(); buf(o, &x) });
            o.push('\t');
            guard(o, |o| { let mut x = a.to_owned(); x.abs_mut(); buf(o, &x) });
            o.push('\t');
            guard(o, |o| {
                let b = a.to_owned();
                let p = |x: &Numeric| format!("{}{}{}{:?}", x.is_nan() as u8, x.is_negative() as u8, x.is_positive() as u8, x.scale());
                let s = p(a);
                o.push('Q');
                o.push_str(&s);
                if p(&b) != s { o.push('!') }
            });
        }
        "typmod" => {
            let mut x = c.n(0).to_owned();
            let t = typmod(c.s(1));
            guard(o, |o| {
                let f = x.apply_typmod(t);
                o.push_str(if f { "V1" } else { "V0" });
            });
            o.push('\t');
            guard(o, |o| buf(o, &x));
        }
        "mktypmod" => {
            let (p, s): (i32, i32) = (c.s(0).parse().unwrap(), c.s(1).parse().unwrap());
            guard(o, |o| match Typmod::new(p, s) {
                None => o.push('N'),
                Some(t) => {
                    let t2 = unsafe { Typmod::from_value_unchecked(t.value()) };
                    let _ = write!(o, "M{:?}|{}|{}|{}", t.extract(), t.value(), t, t == t2 && t2.extract() == t.extract());
                }
            });
            o.push('\t');
            guard(o, |o| match Typmod::with_precision(p) {
                None => o.push('N'),
                Some(t) => { let _ = write!(o, "M{:?}|{}|{}|true", t.extract(), t.value(), t); }
            });
            o.push('\t');
            let _ = write!(o, "{}", Typmod::default().value());
        }
        "cmp" => guard(o, |o| do_cmp(o, c.n(0), c.n(1))),
        "hash" => guard(o, |o| do_hash(o, c.n(0))),
        "sort" => {
            // sort all operands as owned values, print the resulting permutation
            guard(o, |o| {
                let mut v: Vec<(usize, NumericBuf)> = (0..c.args.len()).map(|i| (i, c.n(i).to_owned())).collect();
                v.sort_by(|x, y| x.1.cmp(&y.1));
                let set: std::collections::BTreeSet<NumericBuf> = v.iter().map(|x| x.1.clone()).collect();
                let hset: std::collections::HashSet<NumericBuf> = v.iter().map(|x| x.1.clone()).collect();
                let _ = write!(o, "O{}\t{}\t{}", v.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","), set.len(), hset.len());
            })
        }
        "toint" => {
            let x = c.n(0);
            guard(o, |o| match c.s(1) {
                "i8" => to_int!(o, x, i8), "i16" => to_int!(o, x, i16), "i32" => to_int!(o, x, i32),
                "i64" => to_int!(o, x, i64), "i128" => to_int!(o, x, i128), "isize" => to_int!(o, x, isize),
                "u8" => to_int!(o, x, u8), "u16" => to_int!(o, x, u16), "u32" => to_int!(o, x, u32),
                "u64" => to_int!(o, x, u64), "u128" => to_int!(o, x, u128), "usize" => to_int!(o, x, usize),
                "f32" => to_float!(o, x, f32), "f64" => to_float!(o, x, f64),
                t => panic!("type {t}"),
            })
        }
        "fromint" => {
            let v = c.s(1);
            guard(o, |o| {
                let n: NumericBuf = match c.s(0) {
                    "i8" => v.parse::<i8>().unwrap().into(), "i16" => v.parse::<i16>().unwrap().into(),
                    "i32" => v.parse::<i32>().unwrap().into(), "i64" => v.parse::<i64>().unwrap().into(),
                    "i128" => v.parse::<i128>().unwrap().into(), "isize" => v.parse::<isize>().unwrap().into(),
                    "u8" => v.parse::<u8>().unwrap().into(), "u16" => v.parse::<u16>().unwrap().into(),
                    "u32" => v.parse::<u32>().unwrap().into(), "u64" => v.parse::<u64>().unwrap().into(),
                    "u128" => v.parse::<u128>().unwrap().into(), "usize" => v.parse::<usize>().unwrap().into(),
                    "bool" => (v == "1").into(),
                    t => panic!("type {t}"),
                };
                buf(o, &n)
            })
        }
        "fromf32" | "fromf64" => {
            let bits = u64::from_str_radix(c.s(0), 16).unwrap();
            guard(o, |o| {
                let r = if op == "fromf32" { NumericBuf::try_from(f32::from_bits(bits as u32)) } else { NumericBuf::try_from(f64::from_bits(bits)) };
                match r {
                    Ok(n) => buf(o, &n),
                    Err(e) => o.push_str(terr(&e)),
                }
            })
        }
        "image" => {
            // everything read directly from a stored image
            let a = c.n(0);
            guard(o, |o| {
                let b = a.to_owned();
                let cl = b.clone();
                let cow: std::borrow::Cow<Numeric> = a.into();
                let rf: &Numeric = b.as_ref();
                let mut bad = String::new();
                if a.as_bytes().as_ptr() != match &c.args[0] { Arg::Img(i) => i.bytes().as_ptr(), _ => unreachable!() } { bad.push_str("as_bytes moved;") }
                if b.as_bytes() != cl.as_bytes() || rf.as_bytes() != b.as_bytes() { bad.push_str("clone bytes;") }
                if cow.into_owned().as_bytes() != b.as_bytes() { bad.push_str("cow;") }
                let _ = write!(o, "Q{}{}{}{:?}\t", a.is_nan() as u8, a.is_negative() as u8, a.is_positive() as u8, a.scale());
                o.push('B');
                hex(o, a.as_bytes());
                o.push('\t');
                buf(o, &b);
                o.push('\t');
                text(o, &a.to_string());
                o.push('\t');
                optbuf(o, a.checked_add(Numeric::zero()));
                o.push('\t');
                optbuf(o, Numeric::zero().checked_sub(a));
                o.push('\t');
                buf(o, &a.negate());
                o.push('\t');
                buf(o, &a.trunc(0));
                o.push('\t');
                text(o, &a.normalize());
                o.push('\t');
                let _ = write!(o, "{}{}", (a == &b) as u8, (&b == a) as u8);
                o.push('\t');
                text(o, &bad);
            })
        }
        "consts" => guard(o, |o| {
            buf(o, &NumericBuf::zero());
            o.push('\t');
            buf(o, &NumericBuf::nan());
            o.push('\t');
            o.push('B');
            hex(o, Numeric::zero().as_bytes());
            o.push('\t');
            o.push('B');
            hex(o, Numeric::nan().as_bytes());
        }),
        "debug" => guard(o, |o| {
            let x = c.n(0).to_owned();
            text(o, &format!("{:?}|{:?}", x, c.n(0)))
        }),
        "forms" => guard(o, |o| do_forms(o, c.n(0), c.n(1))),
        "hist" => {
            // panics inside steps are caught there
            guard(o, |o| do_hist(o, c.n(0), c.s(1)))
        }
        "serde" => guard(o, |o| do_serde(o, c.n(0))),
        "dejson" => {
            let t = unhex(c.s(0));
            guard(o, |o| match serde_json::from_slice::<NumericBuf>(&t) {
                Ok(n) => { exercise(&n); buf(o, &n) }
                Err(_) => o.push('E'),
            });
            o.push('\t');
            guard(o, |o| match serde_json::from_slice::<&Numeric>(&t) {
                Ok(n) => { exercise(n); o.push('B'); hex(o, n.as_bytes()) }
                Err(_) => o.push('E'),
            });
        }
        "debin" => {
            // args: raw bincode stream, offset
            let t = unhex(c.s(0));
            let off: usize = c.s(1).parse().unwrap();
            let img = Img::new(&t, off);
            guard(o, |o| match bincode::deserialize::<NumericBuf>(img.bytes()) {
                Ok(n) => { exercise(&n); buf(o, &n) }
                Err(_) => o.push('E'),
            });
            o.push('\t');
            guard(o, |o| match bincode::deserialize::<&Numeric>(img.bytes()) {
                Ok(n) => { exercise(n); o.push('B'); hex(o, n.as_bytes()) }
                Err(_) => o.push('E'),
            });
        }
        _ => panic!("unknown op {op}"),
    }
    for a in &c.args {
        if let Arg::Img(i) = a {
            if !i.intact() {
                o.push_str("\t!OPERAND-MODIFIED");
            }
        }
    }
}
