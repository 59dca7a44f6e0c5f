//! Exact integers, dyadic numbers and rationals for the arithmetic references. Written for clarity;
//! shares nothing with the code under test.
use std::cmp::Ordering;

/// sign and magnitude, little endian, no leading zero words; zero is never negative
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Big {
    pub neg: bool,
    pub m: Vec<u32>,
}

fn trim(mut m: Vec<u32>) -> Vec<u32> {
    while m.last() == Some(&0) {
        let _ = m.pop();
    }
    m
}

fn cmp_m(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for (i, x) in a.iter().enumerate() {
        let s = *x as u64 + b.get(i).copied().unwrap_or(0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}

/// a - b for a >= b
fn sub_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for (i, x) in a.iter().enumerate() {
        let s = *x as i64 - b.get(i).copied().unwrap_or(0) as i64 + c;
        r.push(s.rem_euclid(1 << 32) as u32);
        c = s.div_euclid(1 << 32);
    }
    trim(r)
}

impl Big {
    pub fn from(v: i128) -> Big {
        let mut u = v.unsigned_abs();
        let mut m = Vec::new();
        while u > 0 {
            m.push(u as u32);
            u >>= 32;
        }
        Big { neg: v < 0, m }
    }
    fn make(neg: bool, m: Vec<u32>) -> Big {
        Big { neg: neg && !m.is_empty(), m }
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    pub fn sign(&self) -> i32 {
        if self.m.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Big {
        Big::make(!self.neg, self.m.clone())
    }
    pub fn abs(&self) -> Big {
        Big::make(false, self.m.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::make(self.neg, add_m(&self.m, &o.m));
        }
        match cmp_m(&self.m, &o.m) {
            Ordering::Less => Big::make(o.neg, sub_m(&o.m, &self.m)),
            _ => Big::make(self.neg, sub_m(&self.m, &o.m)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::default();
        }
        let mut r = vec![0u32; self.m.len() + o.m.len()];
        for (i, x) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, y) in o.m.iter().enumerate() {
                let t = *x as u64 * *y as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.m.len()] = c as u32;
        }
        Big::make(self.neg != o.neg, trim(r))
    }
    pub fn shl(&self, n: usize) -> Big {
        if self.is_zero() {
            return self.clone();
        }
        let mut m = vec![0u32; n / 32];
        let k = n % 32;
        let mut c = 0u32;
        for x in &self.m {
            let t = (*x as u64) << k;
            m.push(t as u32 | c);
            c = (t >> 32) as u32;
        }
        m.push(c);
        Big::make(self.neg, trim(m))
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_m(&self.m, &o.m),
            (true, true) => cmp_m(&o.m, &self.m),
        }
    }
    pub fn bits(&self) -> usize {
        self.m.last().map_or(0, |t| self.m.len() * 32 - t.leading_zeros() as usize)
    }
    /// number of trailing zero bits
    pub fn tz(&self) -> usize {
        self.m.iter().position(|w| *w != 0).map_or(0, |i| i * 32 + self.m[i].trailing_zeros() as usize)
    }
    pub fn hex(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = format!("{}0x{:x}", if self.neg { "-" } else { "" }, self.m.last().unwrap());
        for w in self.m.iter().rev().skip(1) {
            s += &format!("{w:08x}");
        }
        s
    }
}

/// b * 2^e
#[derive(Clone, Debug)]
pub struct Dy {
    pub b: Big,
    pub e: i64,
}

impl Dy {
    pub fn int(v: i128) -> Dy {
        Dy { b: Big::from(v), e: 0 }
    }
    pub fn big(b: &Big) -> Dy {
        Dy { b: b.clone(), e: 0 }
    }
    /// exact; v must be finite
    pub fn f(v: f64) -> Dy {
        assert!(v.is_finite());
        let bits = v.to_bits();
        let ex = ((bits >> 52) & 0x7ff) as i64;
        let fr = (bits & ((1u64 << 52) - 1)) as i128;
        let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
        Dy { b: Big::from(if v.is_sign_negative() { -m } else { m }), e }.norm()
    }
    fn norm(mut self) -> Dy {
        let t = self.b.tz();
        if t >= 32 {
            let w = t / 32;
            self.b.m.drain(..w);
            self.e += (w * 32) as i64;
        }
        if self.b.is_zero() {
            self.e = 0;
        }
        self
    }
    pub fn exp(mut self, k: i64) -> Dy {
        self.e += k;
        self
    }
    fn align(&self, o: &Dy) -> (Big, Big, i64) {
        let e = self.e.min(o.e);
        (self.b.shl((self.e - e) as usize), o.b.shl((o.e - e) as usize), e)
    }
    pub fn add(&self, o: &Dy) -> Dy {
        if self.b.is_zero() {
            return o.clone();
        }
        if o.b.is_zero() {
            return self.clone();
        }
        let (a, b, e) = self.align(o);
        Dy { b: a.add(&b), e }.norm()
    }
    pub fn neg(&self) -> Dy {
        Dy { b: self.b.neg(), e: self.e }
    }
    pub fn abs(&self) -> Dy {
        Dy { b: self.b.abs(), e: self.e }
    }
    pub fn sub(&self, o: &Dy) -> Dy {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        Dy { b: self.b.mul(&o.b), e: self.e + o.e }.norm()
    }
    pub fn sign(&self) -> i32 {
        self.b.sign()
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        if self.sign() != o.sign() || self.sign() == 0 {
            return self.sign().cmp(&o.sign());
        }
        let (p, q) = (self.b.bits() as i64 + self.e, o.b.bits() as i64 + o.e);
        if p != q {
            let c = p.cmp(&q);
            return if self.sign() < 0 { c.reverse() } else { c };
        }
        let (a, b, _) = self.align(o);
        a.cmp(&b)
    }
    pub fn le(&self, o: &Dy) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    /// |self - o| <= 2^-k |o|
    pub fn near(&self, o: &Dy, k: i64) -> bool {
        self.sub(o).abs().exp(k).le(&o.abs())
    }
    /// exponent of the highest bit plus one
    pub fn top(&self) -> i64 {
        self.b.bits() as i64 + self.e
    }
    pub fn text(&self) -> String {
        format!("{}*2^{}", self.b.hex(), self.e)
    }
}

/// n / d with d > 0
#[derive(Clone, Debug)]
pub struct Rat {
    pub n: Dy,
    pub d: Dy,
}

impl Rat {
    pub fn of(n: Dy) -> Rat {
        Rat { n, d: Dy::int(1) }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        Rat { n: self.n.mul(&o.d).add(&o.n.mul(&self.d)), d: self.d.mul(&o.d) }
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat { n: self.n.mul(&o.n), d: self.d.mul(&o.d) }
    }
    /// o must not be zero
    pub fn div(&self, o: &Rat) -> Rat {
        let (n, d) = (self.n.mul(&o.d), self.d.mul(&o.n));
        if d.sign() < 0 {
            Rat { n: n.neg(), d: d.neg() }
        } else {
            Rat { n, d }
        }
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
}
