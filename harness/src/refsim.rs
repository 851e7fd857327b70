//! Reference simulator: an eager map from basis states to amplitudes. No queueing, no relocation:
//! the bit position of a qubit is its identifier, every operation is applied at once as its matrix.

use num_complex::Complex64 as C;
pub use num_complex::Complex64 as C64;
use std::collections::{BTreeSet, HashMap};

pub type M2 = [[C; 2]; 2];

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Key(pub Vec<u64>);

impl Key {
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1)
    }
    pub fn set(&mut self, i: usize, v: bool) {
        let w = i / 64;
        if v {
            if self.0.len() <= w {
                self.0.resize(w + 1, 0);
            }
            self.0[w] |= 1 << (i % 64);
        } else if w < self.0.len() {
            self.0[w] &= !(1 << (i % 64));
            while self.0.last() == Some(&0) {
                self.0.pop();
            }
        }
    }
    pub fn with(&self, i: usize, v: bool) -> Key {
        let mut k = self.clone();
        k.set(i, v);
        k
    }
}

#[derive(Clone)]
pub struct RefSim {
    pub amps: HashMap<Key, C>,
    pub live: BTreeSet<usize>,
}

pub fn c(re: f64, im: f64) -> C {
    C::new(re, im)
}

pub const Z0: C = C::new(0.0, 0.0);
pub const ONE: C = C::new(1.0, 0.0);
pub const I: C = C::new(0.0, 1.0);

pub fn gate(name: u8) -> M2 {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let t = c(h, h);
    match name {
        0 => [[Z0, ONE], [ONE, Z0]],
        1 => [[Z0, -I], [I, Z0]],
        2 => [[ONE, Z0], [Z0, -ONE]],
        3 => [[c(h, 0.), c(h, 0.)], [c(h, 0.), c(-h, 0.)]],
        4 => [[ONE, Z0], [Z0, I]],
        5 => [[ONE, Z0], [Z0, -I]],
        6 => [[ONE, Z0], [Z0, t]],
        7 => [[ONE, Z0], [Z0, t.conj()]],
        _ => unreachable!(),
    }
}

/// Rotation about X (0), Y (1), Z (2).
pub fn rot(axis: u8, th: f64) -> M2 {
    let (s, co) = ((th / 2.0).sin(), (th / 2.0).cos());
    match axis {
        0 => [[c(co, 0.), c(0., -s)], [c(0., -s), c(co, 0.)]],
        1 => [[c(co, 0.), c(-s, 0.)], [c(s, 0.), c(co, 0.)]],
        2 => [[c(co, -s), Z0], [Z0, c(co, s)]],
        _ => unreachable!(),
    }
}

pub fn phase(th: f64) -> M2 {
    [[ONE, Z0], [Z0, c(th.cos(), th.sin())]]
}

const PRUNE: f64 = 1e-15;

impl Default for RefSim {
    fn default() -> Self {
        Self::new()
    }
}

impl RefSim {
    pub fn new() -> Self {
        let mut amps = HashMap::new();
        amps.insert(Key::default(), ONE);
        RefSim {
            amps,
            live: BTreeSet::new(),
        }
    }

    pub fn lowest_free(&self) -> usize {
        (0..).find(|i| !self.live.contains(i)).unwrap()
    }

    pub fn allocate(&mut self) -> usize {
        let id = self.lowest_free();
        self.live.insert(id);
        id
    }

    fn prune(&mut self) {
        self.amps.retain(|_, v| v.re.abs() > PRUNE || v.im.abs() > PRUNE);
    }

    pub fn apply1(&mut self, ctls: &[usize], t: usize, m: &M2) {
        let diag = m[0][1] == Z0 && m[1][0] == Z0;
        if diag {
            for (k, v) in &mut self.amps {
                if ctls.iter().all(|q| k.bit(*q)) {
                    *v *= if k.bit(t) { m[1][1] } else { m[0][0] };
                }
            }
            return;
        }
        let perm = m[0][0] == Z0 && m[1][1] == Z0;
        let mut out: HashMap<Key, C> = HashMap::with_capacity(self.amps.len() * 2);
        for (k, v) in self.amps.drain() {
            if ctls.iter().all(|q| k.bit(*q)) {
                let b = usize::from(k.bit(t));
                if !perm {
                    *out.entry(k.clone()).or_insert(Z0) += v * m[b][b];
                }
                let mut f = k;
                f.set(t, b == 0);
                *out.entry(f).or_insert(Z0) += v * m[1 - b][b];
            } else {
                *out.entry(k).or_insert(Z0) += v;
            }
        }
        self.amps = out;
        if !perm {
            self.prune();
        }
    }

    pub fn swap(&mut self, a: usize, b: usize) {
        if a == b {
            return;
        }
        self.amps = self
            .amps
            .drain()
            .map(|(mut k, v)| {
                let (x, y) = (k.bit(a), k.bit(b));
                k.set(a, y);
                k.set(b, x);
                (k, v)
            })
            .collect();
    }

    /// exp(i theta P) = cos(theta) + i sin(theta) P; paulis: 0=I 1=X 2=Y 3=Z.
    pub fn exp(&mut self, ctls: &[usize], paulis: &[u8], th: f64, targets: &[usize]) {
        let (s, co) = (th.sin(), th.cos());
        let mut out: HashMap<Key, C> = HashMap::with_capacity(self.amps.len() * 2);
        for (k, v) in self.amps.drain() {
            if !ctls.iter().all(|q| k.bit(*q)) {
                *out.entry(k).or_insert(Z0) += v;
                continue;
            }
            let mut f = k.clone();
            let mut ph = ONE;
            for (p, t) in paulis.iter().zip(targets) {
                let b = k.bit(*t);
                match p {
                    0 => {}
                    1 => f.set(*t, !b),
                    2 => {
                        ph *= if b { -I } else { I };
                        f.set(*t, !b);
                    }
                    3 => {
                        if b {
                            ph = -ph;
                        }
                    }
                    _ => unreachable!(),
                }
            }
            *out.entry(k).or_insert(Z0) += v * co;
            *out.entry(f).or_insert(Z0) += v * ph * I * s;
        }
        self.amps = out;
        self.prune();
    }

    /// Matrix in row-major order; the first target is the most significant index bit.
    pub fn matrix(&mut self, ctls: &[usize], targets: &[usize], m: &[Vec<C>]) {
        let n = targets.len();
        let mut out: HashMap<Key, C> = HashMap::with_capacity(self.amps.len() * 2);
        for (k, v) in self.amps.drain() {
            if !ctls.iter().all(|q| k.bit(*q)) {
                *out.entry(k).or_insert(Z0) += v;
                continue;
            }
            let mut col = 0;
            for t in targets {
                col = col << 1 | usize::from(k.bit(*t));
            }
            for (row, r) in m.iter().enumerate() {
                if r[col] != Z0 {
                    let mut f = k.clone();
                    for (j, t) in targets.iter().enumerate() {
                        f.set(*t, row >> (n - 1 - j) & 1 == 1);
                    }
                    *out.entry(f).or_insert(Z0) += v * r[col];
                }
            }
        }
        self.amps = out;
        self.prune();
    }

    fn parity(k: &Key, ids: &[usize]) -> bool {
        ids.iter().filter(|i| k.bit(**i)).count() % 2 == 1
    }

    pub fn prob(&self, ids: &[usize]) -> f64 {
        self.amps
            .iter()
            .filter(|(k, _)| Self::parity(k, ids))
            .map(|(_, v)| v.norm_sqr())
            .sum()
    }

    /// Projects on the parity and renormalises; returns the probability it had.
    pub fn project(&mut self, ids: &[usize], val: bool) -> f64 {
        self.amps.retain(|k, _| Self::parity(k, ids) == val);
        let p: f64 = self.amps.values().map(|v| v.norm_sqr()).sum();
        let s = 1.0 / p.sqrt();
        for v in self.amps.values_mut() {
            *v *= s;
        }
        p
    }

    /// Removes a qubit that has a definite value.
    pub fn remove_definite(&mut self, id: usize, val: bool) {
        if val {
            self.amps = self
                .amps
                .drain()
                .map(|(k, v)| (k.with(id, false), v))
                .collect();
        }
        self.live.remove(&id);
    }

    pub fn norm(&self) -> f64 {
        self.amps.values().map(|v| v.norm_sqr()).sum::<f64>().sqrt()
    }

    /// The state re-indexed by the rank of each live identifier.
    pub fn ranked(&self) -> HashMap<Key, C> {
        if self.live.iter().enumerate().all(|(r, id)| r == *id) {
            return self.amps.clone();
        }
        self.amps
            .iter()
            .map(|(k, v)| {
                let mut o = Key::default();
                for (r, id) in self.live.iter().enumerate() {
                    if k.bit(*id) {
                        o.set(r, true);
                    }
                }
                (o, *v)
            })
            .collect()
    }
}

/// L2 distance between the two states after aligning the global phase.
pub fn distance(reference: &HashMap<Key, C>, got: &HashMap<Key, C>) -> f64 {
    let mut inner = Z0;
    for (k, r) in reference {
        if let Some(g) = got.get(k) {
            inner += r.conj() * g;
        }
    }
    let ph = if inner.norm() > 1e-12 {
        inner / inner.norm()
    } else {
        ONE
    };
    let mut d = 0.0;
    for (k, r) in reference {
        let g = got.get(k).copied().unwrap_or(Z0);
        d += (g - ph * r).norm_sqr();
    }
    for (k, g) in got {
        if !reference.contains_key(k) {
            d += g.norm_sqr();
        }
    }
    if d.is_nan() {
        f64::INFINITY
    } else {
        d.sqrt()
    }
}

pub fn to_map(state: &[(num_bigint::BigUint, C)]) -> HashMap<Key, C> {
    let mut m = HashMap::with_capacity(state.len());
    for (k, v) in state {
        let key = Key(k.to_u64_digits());
        *m.entry(key).or_insert(Z0) += v;
    }
    m
}

pub fn render(m: &HashMap<Key, C>) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by(|a, b| a.0 .0.len().cmp(&b.0 .0.len()).then(a.0 .0.iter().rev().cmp(b.0 .0.iter().rev())));
    let mut s = String::from("[");
    for (k, a) in v.iter().take(16) {
        let label = match k.0.len() {
            0 => "0".to_string(),
            1 => k.0[0].to_string(),
            _ => format!("{:x?}", k.0),
        };
        s += &format!("|{label}>: {:.6}{:+.6}i, ", a.re, a.im);
    }
    if v.len() > 16 {
        s += &format!("... {} entries", v.len());
    }
    s + "]"
}
