//! Exhaustive exploration of the satisfying assignments of a recorded constraint system.
//!
//! A depth-first search over assignments with propagation that is exact in every field:
//! a constraint with one unknown is solved (at most two roots); a linear constraint whose unknowns
//! all have two-element domains is enumerated exactly over the integers (all wraps of the modulus
//! included); otherwise the search branches. Every reported assignment satisfies every constraint.
use crate::rec::{Rec, V};
use crate::toy::TF;
use ff::PrimeField;
use std::collections::{BTreeMap, BTreeSet};

type T<F> = Vec<(u32, F)>;
struct Con<F> {
    s: [T<F>; 3],
    vars: Vec<u32>,
}
pub struct Sys<F: TF> {
    cons: Vec<Con<F>>,
    occ: Vec<Vec<u32>>,
    /// for a small constraint: the others that speak only of its variables
    subs: Vec<Vec<u32>>,
    ni: usize,
    pub n: usize,
}
impl<F: TF> Sys<F> {
    pub fn new(r: &Rec<F>) -> Self {
        let (ni, n) = (r.inputs.len(), r.inputs.len() + r.aux.len());
        let mut s = Sys { cons: Vec::with_capacity(r.cons.len()), occ: vec![vec![]; n], subs: vec![], ni, n };
        for (a, b, c) in &r.cons {
            let m = |l: &Vec<(V, F)>| l.iter().map(|(v, k)| (s.ix(*v), *k)).collect::<Vec<_>>();
            let t = [m(a), m(b), m(c)];
            let mut vars: Vec<u32> = t.iter().flatten().map(|x| x.0).collect();
            vars.sort_unstable();
            vars.dedup();
            let id = s.cons.len() as u32;
            for v in &vars { s.occ[*v as usize].push(id); }
            s.cons.push(Con { s: t, vars });
        }
        s.subs = s.cons.iter().enumerate().map(|(i, c)| {
            if c.vars.len() > 7 || c.vars.len() < 4 { return vec![]; }
            let mut l: Vec<u32> = vec![];
            for v in &c.vars {
                if *v == 0 { continue; }
                for k in &s.occ[*v as usize] {
                    let o = &s.cons[*k as usize].vars;
                    if *k != i as u32 && o.len() > 2 && o.len() <= c.vars.len() && o.iter().all(|x| c.vars.contains(x) || *x == 0) { l.push(*k); }
                }
            }
            l.sort_unstable();
            l.dedup();
            l
        }).collect();
        s
    }
    pub fn ix(&self, v: V) -> u32 {
        if v & 1 == 0 { v >> 1 } else { self.ni as u32 + (v >> 1) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Big(i64, [u64; 5]); // unused sign slot keeps the type distinct; value in two's complement
impl Big {
    const Z: Big = Big(0, [0; 5]);
    fn add(self, o: Big) -> Big {
        let mut r = [0; 5];
        let mut c = 0u128;
        for i in 0..5 { let s = self.1[i] as u128 + o.1[i] as u128 + c; r[i] = s as u64; c = s >> 64; }
        Big(0, r)
    }
    fn neg(self) -> Big {
        let mut r = [0; 5];
        let mut c = 1u128;
        for i in 0..5 { let s = (!self.1[i]) as u128 + c; r[i] = s as u64; c = s >> 64; }
        Big(0, r)
    }
    fn sub(self, o: Big) -> Big { self.add(o.neg()) }
    fn lt(self, o: Big) -> bool { (self.sub(o).1[4] >> 63) == 1 }
    fn abs(self) -> Big { if self.1[4] >> 63 == 1 { self.neg() } else { self } }
    fn is_neg(self) -> bool { self.1[4] >> 63 == 1 }
    /// 2-adic valuation (320 for zero; the same for a number and its negative)
    fn val2(self) -> u32 {
        for i in 0..5 { if self.1[i] != 0 { return 64 * i as u32 + self.1[i].trailing_zeros(); } }
        320
    }
}
fn to_big<F: TF>(f: &F) -> Big {
    let r = f.to_repr();
    let mut b = Big::Z;
    for i in 0..4 { let mut w = [0u8; 8]; w.copy_from_slice(&r[i * 8..i * 8 + 8]); b.1[i] = u64::from_le_bytes(w); }
    b
}
fn modulus<F: TF>() -> Big { let mut one = Big::Z; one.1[0] = 1; to_big(&(-F::ONE)).add(one) }
fn signed<F: TF>(f: &F, p: Big) -> Big {
    let x = to_big(f);
    let y = to_big(&(-*f));
    if f.is_zero_vartime() || !y.lt(x) { x } else { x.sub(p) }
}

/// A square root, if there is one (Tonelli-Shanks).
pub fn sqrt<F: TF>(a: &F) -> Option<F> {
    if a.is_zero_vartime() { return Some(F::ZERO); }
    // t = (p - 1) >> S
    let mut e = to_big(&(-F::ONE)).1;
    for _ in 0..F::S { for i in 0..5 { e[i] = (e[i] >> 1) | if i < 4 { e[i + 1] << 63 } else { 0 }; } }
    let mut half = e; // (t - 1) / 2
    half[0] &= !1;
    for i in 0..5 { half[i] = (half[i] >> 1) | if i < 4 { half[i + 1] << 63 } else { 0 }; }
    let w = a.pow_vartime(half);
    let mut x = *a * w;
    let mut b = x * w;
    let mut z = F::ROOT_OF_UNITY;
    let mut v = F::S;
    while b != F::ONE {
        let mut k = 0;
        let mut t = b;
        while t != F::ONE { t = t.square(); k += 1; if k >= v { return None; } }
        let mut w = z;
        for _ in 0..(v - k - 1) { w = w.square(); }
        z = w.square();
        x *= w;
        b *= z;
        v = k;
    }
    if x.square() == *a { Some(x) } else { None }
}

/// The roots of q2 x^2 + q1 x + q0; None if everything is one.
fn roots2<F: TF>(q2: F, q1: F, q0: F) -> Option<Vec<F>> {
    if q2.is_zero_vartime() {
        if q1.is_zero_vartime() { return if q0.is_zero_vartime() { None } else { Some(vec![]) }; }
        if q0.is_zero_vartime() { return Some(vec![F::ZERO]); }
        return Some(vec![if q1 == F::ONE { -q0 } else if q1 == -F::ONE { q0 } else { -q0 * q1.invert().unwrap() }]);
    }
    let i2 = if q2 == F::ONE || q2 == -F::ONE { q2 } else { q2.invert().unwrap() };
    if q0.is_zero_vartime() {
        let y = -q1 * i2;
        return Some(if y.is_zero_vartime() { vec![y] } else { vec![F::ZERO, y] });
    }
    let (h, k) = (q1 * i2 * F::TWO_INV, q0 * i2);
    Some(match sqrt(&(h.square() - k)) {
        None => vec![],
        Some(s) if s.is_zero_vartime() => vec![-h],
        Some(s) => vec![s - h, -s - h],
    })
}
#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub nodes: u64,
    pub solutions: u64,
}
impl Default for Limits {
    fn default() -> Self { Limits { nodes: 5_000_000, solutions: 5_000_000 } }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Outcome {
    pub solutions: u64,
    pub nodes: u64,
    pub props: u64,
    pub complete: bool,
}

/// The solutions of one constraint over two-valued unknowns: all of them (few), or too many to list.
enum Lin { Rows(Vec<Vec<(u32, bool)>>), Many }
const ROWS: usize = 12;
/// Every choice of `terms` that sums to `target`, over the integers; false if the search was cut short.
/// `order` 0: largest weight first, pruned by the reachable range; 1: lowest power of two first, pruned by divisibility too.
fn subset_sums(terms: &[(Big, Big, u32)], target: Big, order: u8, rows: &mut Vec<Vec<bool>>) -> bool {
    let n = terms.len();
    let mut ix: Vec<usize> = (0..n).collect();
    if order == 0 {
        ix.sort_by(|x, y| { let (a, b) = (terms[*x].0, terms[*y].0); if b.lt(a) { std::cmp::Ordering::Less } else if a.lt(b) { std::cmp::Ordering::Greater } else { x.cmp(y) } });
    } else {
        ix.sort_by_key(|x| (terms[*x].1.val2(), *x));
    }
    let v2: Vec<u32> = ix.iter().map(|i| terms[*i].1.val2()).collect();
    let (mut lo, mut hi) = (vec![Big::Z; n + 1], vec![Big::Z; n + 1]);
    for i in (0..n).rev() {
        let s = terms[ix[i]].1;
        lo[i] = if s.is_neg() { lo[i + 1].add(s) } else { lo[i + 1] };
        hi[i] = if s.is_neg() { hi[i + 1] } else { hi[i + 1].add(s) };
    }
    let limit = if order == 0 { 20_000 } else { 100_000 };
    let mut nodes = 0u32;
    let mut pick = vec![false; n];
    let mut stack: Vec<(usize, Big, u8)> = vec![(0, target, 0)];
    while let Some((i, rem, st)) = stack.pop() {
        nodes += 1;
        if nodes > limit { return false; }
        if i == n {
            if rem == Big::Z {
                rows.push(pick.clone());
                if rows.len() > ROWS { return false; }
            }
            continue;
        }
        if st == 0 && (rem.lt(lo[i]) || hi[i].lt(rem) || (order == 1 && rem.val2() < v2[i])) { continue; }
        if st < 2 {
            stack.push((i, rem, st + 1));
            pick[ix[i]] = st == 1;
            let r = if st == 1 { rem.sub(terms[ix[i]].1) } else { rem };
            stack.push((i + 1, r, 0));
        }
    }
    true
}

enum Branch<F> { Var(u32), Rows(Vec<Vec<(u32, F)>>) }

pub struct Explorer<'a, F: TF> {
    sys: &'a Sys<F>,
    val: Vec<Option<F>>,
    dom: Vec<Option<[F; 2]>>,
    unk: Vec<u32>,
    any: Vec<u32>,
    trail: Vec<(u32, bool)>, // (var, true = value assigned / false = domain set)
    queue: Vec<u32>,
    multi: BTreeSet<u32>,
    small: Option<Vec<F>>,
    out: Outcome,
    lim: Limits,
    stop: bool,
    watch: Vec<u32>,
    p: Big,
}

/// The choices forced by divisibility alone: from the lowest power of two up, as long as one term has it.
fn low_bits(terms: &[(Big, Big, u32)], target: Big) -> Vec<(u32, bool)> {
    let mut ix: Vec<(u32, usize)> = terms.iter().enumerate().map(|(i, t)| (t.1.val2(), i)).collect();
    ix.sort_unstable();
    let mut out = vec![];
    let mut rem = target;
    for (k, (v, i)) in ix.iter().enumerate() {
        if k + 1 < ix.len() && ix[k + 1].0 == *v { break; }
        let r = rem.val2();
        if r < *v { break; } // contradiction: left to the exact search
        out.push((terms[*i].2, r == *v));
        if r == *v { rem = rem.sub(terms[*i].1); }
    }
    out
}
impl<'a, F: TF> Explorer<'a, F> {
    pub fn new(sys: &'a Sys<F>, watch: &[V], lim: Limits) -> Self {
        let small = if F::NUM_BITS <= 9 {
            let p = modulus::<F>().1[0];
            Some((0..p).map(F::from).collect())
        } else {
            None
        };
        let mut e = Explorer {
            sys,
            val: vec![None; sys.n],
            dom: vec![None; sys.n],
            unk: sys.cons.iter().map(|c| c.vars.len() as u32).collect(),
            any: sys.cons.iter().map(|c| c.vars.len() as u32).collect(),
            trail: vec![],
            queue: vec![],
            multi: BTreeSet::new(),
            small,
            out: Outcome { complete: true, ..Default::default() },
            lim,
            stop: false,
            watch: watch.iter().map(|v| sys.ix(*v)).collect(),
            p: modulus::<F>(),
        };
        for (i, u) in e.unk.iter().enumerate() { if *u <= 1 { e.queue.push(i as u32) } }
        e
    }
    fn assign(&mut self, v: u32, x: F) -> bool {
        if let Some(y) = self.val[v as usize] { return x == y; }
        if let Some(d) = self.dom[v as usize] { if x != d[0] && x != d[1] { return false; } }
        let had = self.dom[v as usize].is_some();
        self.val[v as usize] = Some(x);
        self.trail.push((v, true));
        let sys = self.sys;
        for c in &sys.occ[v as usize] {
            let i = *c as usize;
            self.unk[i] -= 1;
            if !had { self.any[i] -= 1; }
            if self.unk[i] <= 1 { self.queue.push(*c); } else if self.any[i] == 0 || (self.any[i] == 1 && self.unk[i] <= 6) { self.multi.insert(*c); }
        }
        true
    }
    fn restrict(&mut self, v: u32, a: F, b: F) -> bool {
        match self.dom[v as usize] {
            None => {
                self.dom[v as usize] = Some([a, b]);
                self.trail.push((v, false));
                let sys = self.sys;
                for c in &sys.occ[v as usize] {
                    let i = *c as usize;
                    self.any[i] -= 1;
                    if self.unk[i] > 1 && (self.any[i] == 0 || (self.any[i] == 1 && self.unk[i] <= 6)) { self.multi.insert(*c); }
                }
                true
            }
            Some(d) => {
                let ina = a == d[0] || a == d[1];
                let inb = b == d[0] || b == d[1];
                match (ina, inb) { (true, true) => true, (true, false) => self.assign(v, a), (false, true) => self.assign(v, b), _ => false }
            }
        }
    }
    fn undo(&mut self, mark: usize) {
        self.queue.clear();
        self.multi.clear();
        while self.trail.len() > mark {
            let (v, is_val) = self.trail.pop().unwrap();
            if is_val {
                self.val[v as usize] = None;
                let no_dom = self.dom[v as usize].is_none();
                for c in &self.sys.occ[v as usize] { self.unk[*c as usize] += 1; if no_dom { self.any[*c as usize] += 1; } }
            } else {
                self.dom[v as usize] = None;
                for c in &self.sys.occ[v as usize] { self.any[*c as usize] += 1; }
            }
        }
    }
    /// constant part and unknown terms of one side
    fn side(&self, t: &T<F>) -> (F, T<F>) {
        let mut k = F::ZERO;
        let mut u = vec![];
        for (v, c) in t { match self.val[*v as usize] { Some(x) => k += x * *c, None => u.push((*v, *c)) } }
        (k, u)
    }
    fn one(&mut self, c: u32) -> bool {
        let con = &self.sys.cons[c as usize];
        let (a0, a) = self.side(&con.s[0]);
        let (b0, b) = self.side(&con.s[1]);
        let (c0, cc) = self.side(&con.s[2]);
        let var = match a.first().or(b.first()).or(cc.first()) { Some(x) => x.0, None => return a0 * b0 == c0 };
        let k = |t: &T<F>| t.first().map(|x| x.1).unwrap_or(F::ZERO);
        let (a1, b1, c1) = (k(&a), k(&b), k(&cc));
        match roots2(a1 * b1, a1 * b0 + a0 * b1 - c1, a0 * b0 - c0) {
            None => true,
            Some(r) => match r.len() {
                0 => false,
                1 => self.assign(var, r[0]),
                _ => if r[0] == F::ONE || r[1].is_zero_vartime() { self.restrict(var, r[1], r[0]) } else { self.restrict(var, r[0], r[1]) },
            },
        }
    }
    /// All unknowns of the constraint have two-element domains.
    fn linear(&self, c: u32) -> Lin {
        let con = &self.sys.cons[c as usize];
        let (a0, a) = self.side(&con.s[0]);
        let (b0, b) = self.side(&con.s[1]);
        let (c0, cc) = self.side(&con.s[2]);
        let mut w: BTreeMap<u32, F> = BTreeMap::new();
        let mut k = -c0;
        let (m, o0, o) = if a.is_empty() { (a0, b0, &b) } else if b.is_empty() { (b0, a0, &a) } else { return self.brute(c) };
        k += m * o0;
        for (v, x) in o { *w.entry(*v).or_insert(F::ZERO) += m * *x; }
        for (v, x) in &cc { *w.entry(*v).or_insert(F::ZERO) -= *x; }
        // sum w x + k = 0, x = d0 + (d1 - d0) t
        let mut terms = vec![];
        let mut free = 0;
        for (v, x) in &w {
            let d = self.dom[*v as usize].unwrap();
            k += *x * d[0];
            let y = *x * (d[1] - d[0]);
            if y.is_zero_vartime() { free += 1; continue; }
            let s = signed(&y, self.p);
            terms.push((s.abs(), s, *v));
        }
        let (mut lo, mut hi) = (Big::Z, Big::Z);
        for t in &terms { if t.1.is_neg() { lo = lo.add(t.1) } else { hi = hi.add(t.1) } }
        let mut targets = vec![];
        let mut t = to_big(&(-k));
        while !t.lt(lo) { t = t.sub(self.p); }
        t = t.add(self.p);
        while !hi.lt(t) { targets.push(t); t = t.add(self.p); if targets.len() > 4096 { return Lin::Many; } }
        if targets.len() == 1 {
            let p = low_bits(&terms, targets[0]);
            if !p.is_empty() { return Lin::Rows(vec![p]); }
        }
        let mut rows: Vec<Vec<bool>> = vec![];
        for t in targets {
            let mark = rows.len();
            if subset_sums(&terms, t, 0, &mut rows) { continue; }
            if rows.len() > ROWS { return Lin::Many; }
            rows.truncate(mark);
            if !subset_sums(&terms, t, 1, &mut rows) { return Lin::Many; }
        }
        if free > 0 && !rows.is_empty() { return Lin::Many; }
        Lin::Rows(rows.into_iter().map(|p| terms.iter().zip(p).map(|(t, b)| (t.2, b)).collect()).collect())
    }
    /// A product constraint over few two-valued unknowns.
    fn brute(&self, c: u32) -> Lin {
        let con = &self.sys.cons[c as usize];
        let un: Vec<u32> = con.vars.iter().cloned().filter(|v| self.val[*v as usize].is_none()).collect();
        if un.len() > 10 { return Lin::Many; }
        let mut rows = vec![];
        for m in 0..1u32 << un.len() {
            let x = |v: u32| match self.val[v as usize] { Some(x) => x, None => { let i = un.iter().position(|u| *u == v).unwrap(); self.dom[v as usize].unwrap()[((m >> i) & 1) as usize] } };
            let e = |t: &T<F>| t.iter().map(|(v, k)| x(*v) * *k).sum::<F>();
            if e(&con.s[0]) * e(&con.s[1]) == e(&con.s[2]) {
                if rows.len() == ROWS { return Lin::Many; }
                rows.push(un.iter().enumerate().map(|(i, v)| (*v, (m >> i) & 1 == 1)).collect());
            }
        }
        Lin::Rows(rows)
    }
    /// One unknown without a domain and up to five with one: if the roots over all combinations are
    /// at most two values, they are its domain.
    fn derive(&mut self, c: u32) -> bool {
        let con = &self.sys.cons[c as usize];
        let un: Vec<u32> = con.vars.iter().cloned().filter(|v| self.val[*v as usize].is_none()).collect();
        let (d, f): (Vec<u32>, Vec<u32>) = un.iter().cloned().partition(|v| self.dom[*v as usize].is_some());
        if f.len() != 1 || d.len() > 5 { return true; }
        let var = f[0];
        let mut roots: Vec<F> = vec![];
        for m in 0..1u32 << d.len() {
            let x = |v: u32| match self.val[v as usize] { Some(x) => x, None => { let i = d.iter().position(|u| *u == v).unwrap(); self.dom[v as usize].unwrap()[((m >> i) & 1) as usize] } };
            let e = |t: &T<F>| { let (mut k0, mut k1) = (F::ZERO, F::ZERO); for (v, k) in t { if *v == var { k1 += *k } else { k0 += x(*v) * *k } } (k0, k1) };
            // combinations that another constraint over the same variables rules out do not count
            let dead = self.sys.subs[c as usize].iter().any(|k| {
                let o = &self.sys.cons[*k as usize];
                if o.vars.contains(&var) { return false; }
                let w = |t: &T<F>| t.iter().map(|(v, k)| x(*v) * *k).sum::<F>();
                w(&o.s[0]) * w(&o.s[1]) != w(&o.s[2])
            });
            if dead { continue; }
            let ((a0, a1), (b0, b1), (c0, c1)) = (e(&con.s[0]), e(&con.s[1]), e(&con.s[2]));
            match roots2(a1 * b1, a1 * b0 + a0 * b1 - c1, a0 * b0 - c0) { None => return true, Some(r) => for x in r { if !roots.contains(&x) { roots.push(x); } } }
            if roots.len() > 2 { return true; }
        }
        match roots.len() {
            0 => false,
            1 => self.assign(var, roots[0]),
            _ => { let (x, y) = (roots[0], roots[1]); if x == F::ONE || y.is_zero_vartime() { self.restrict(var, y, x) } else { self.restrict(var, x, y) } }
        }
    }
    fn propagate(&mut self) -> bool {
        loop {
            while let Some(c) = self.queue.pop() {
                if self.unk[c as usize] > 1 { continue; }
                self.out.props += 1;
                if !self.one(c) { self.queue.clear(); self.multi.clear(); return false; }
            }
            let c = match self.multi.iter().next() { Some(c) => *c, None => return true };
            self.multi.remove(&c);
            if self.unk[c as usize] < 2 || self.any[c as usize] > 1 { continue; }
            if self.any[c as usize] == 1 {
                if self.unk[c as usize] > 6 { continue; }
                self.out.props += 1;
                if !self.derive(c) { self.queue.clear(); self.multi.clear(); return false; }
                continue;
            }
            self.out.props += 1;
            match self.linear(c) {
                Lin::Rows(l) if l.is_empty() => { self.queue.clear(); self.multi.clear(); return false; }
                Lin::Rows(l) => for (i, (v, b)) in l[0].iter().enumerate() {
                    if l.iter().any(|r| r[i].1 != *b) { continue; }
                    let d = self.dom[*v as usize].unwrap();
                    if !self.assign(*v, d[*b as usize]) { self.queue.clear(); self.multi.clear(); return false; }
                },
                Lin::Many => {}
            }
        }
    }
    /// Choose what to branch on: the rows of a constraint with few solutions, or a variable.
    fn pick(&self) -> Option<Branch<F>> {
        let mut best: Option<(u32, u32, u32)> = None; // (any, unk, con)
        let mut tries = 0;
        for (i, c) in self.sys.cons.iter().enumerate() {
            let u = self.unk[i];
            if u == 0 { continue; }
            let open = c.vars.iter().find(|v| self.val[**v as usize].is_none()).unwrap();
            if u == 1 && self.dom[*open as usize].is_none() { continue; } // propagation found it to hold for every value
            if u > 1 && self.settled(c) { continue; }
            if u > 10 && self.any[i] == 0 && tries < 4 {
                tries += 1;
                if let Lin::Rows(r) = self.linear(i as u32) {
                    return Some(Branch::Rows(r.into_iter().map(|r| r.into_iter().map(|(v, b)| (v, self.dom[v as usize].unwrap()[b as usize])).collect()).collect()));
                }
            }
            let k = (if self.any[i] == 0 { 0 } else { 1 }, u, i as u32);
            if best.map_or(true, |b| k < b) { best = Some(k); if k.0 == 0 && u <= 2 { break; } }
        }
        if let Some((_, _, c)) = best {
            let con = &self.sys.cons[c as usize];
            let un: Vec<u32> = con.vars.iter().cloned().filter(|v| self.val[*v as usize].is_none()).collect();
            return Some(Branch::Var(un.iter().cloned().find(|v| self.dom[*v as usize].is_some()).unwrap_or(un[0])));
        }
        self.watch.iter().cloned().find(|v| self.val[*v as usize].is_none()).map(Branch::Var)
    }
    /// Holds whatever its unknowns are (a factor and the right side are known to be zero).
    fn settled(&self, c: &Con<F>) -> bool {
        let z = |t: &T<F>| { let (k, u) = self.side(t); u.is_empty() && k.is_zero_vartime() };
        (z(&c.s[0]) || z(&c.s[1])) && z(&c.s[2])
    }
    fn search(&mut self, f: &mut dyn FnMut(&dyn Fn(V) -> F) -> bool) {
        if self.stop { return; }
        self.out.nodes += 1;
        if self.out.nodes > self.lim.nodes { self.out.complete = false; self.stop = true; return; }
        if !self.propagate() { return; }
        let v = match self.pick() {
            Some(Branch::Var(v)) => v,
            Some(Branch::Rows(rows)) => {
                for r in rows { self.branch(&r, f); if self.stop { return; } }
                return;
            }
            None => {
                self.out.solutions += 1;
                let (sys, val, dom) = (self.sys, &self.val, &self.dom);
                let get = |v: V| { let i = sys.ix(v) as usize; val[i].unwrap_or_else(|| dom[i].map_or(F::ZERO, |d| d[0])) };
                debug_assert!(sys.cons.iter().all(|c| { let e = |t: &T<F>| t.iter().map(|(v, k)| val[*v as usize].unwrap_or_else(|| dom[*v as usize].map_or(F::ZERO, |d| d[0])) * *k).sum::<F>(); e(&c.s[0]) * e(&c.s[1]) == e(&c.s[2]) }), "explorer produced a non-solution");
                if !f(&get) { self.stop = true; }
                if self.out.solutions >= self.lim.solutions { self.stop = true; self.out.complete = false; }
                return;
            }
        };
        let cands: Vec<F> = match (self.dom[v as usize], &self.small) {
            (Some(d), _) => vec![d[0], d[1]],
            (None, Some(a)) => a.clone(),
            (None, None) => { self.out.complete = false; vec![F::ZERO, F::ONE, F::from(2), -F::ONE, F::from(3), F::TWO_INV] }
        };
        for x in cands { self.branch(&[(v, x)], f); if self.stop { return; } }
    }
    fn branch(&mut self, row: &[(u32, F)], f: &mut dyn FnMut(&dyn Fn(V) -> F) -> bool) {
        let mark = self.trail.len();
        if row.iter().all(|(v, x)| self.assign(*v, *x)) { self.search(f); }
        self.undo(mark);
    }
    /// Enumerate every satisfying assignment extending `fixed`; `f` returns false to stop.
    pub fn run(mut self, fixed: &[(V, F)], f: &mut dyn FnMut(&dyn Fn(V) -> F) -> bool) -> Outcome {
        if !self.assign(0, F::ONE) { return self.out; }
        for (v, x) in fixed { let i = self.sys.ix(*v); if !self.assign(i, *x) { return self.out; } }
        self.search(f);
        self.out
    }
}
pub fn explore<F: TF>(sys: &Sys<F>, fixed: &[(V, F)], watch: &[V], lim: Limits, f: &mut dyn FnMut(&dyn Fn(V) -> F) -> bool) -> Outcome {
    Explorer::new(sys, watch, lim).run(fixed, f)
}
