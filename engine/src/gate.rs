//! The gated form of a function: every value it returns, stores or passes on,
//! with the exact condition (a decision diagram over atomic comparisons) under
//! which it does.  Two ways of writing the same decisions have the same gated
//! form: merges are expanded into the cases they come from, comparisons are
//! normalised, and what the atoms exclude of each other is taken into account.
use crate::exec::*;
use crate::load::*;
use crate::state::St;
use crate::term::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

type B = u32;
const F: B = 0;
const TR: B = 1;
const LIM: usize = 160;

#[derive(Default)]
pub struct Bdd {
    n: Vec<(u32, B, B)>,
    u: HashMap<(u32, B, B), B>,
    m: HashMap<(B, B, B), B>,
    pub over: bool,
    max: usize,
}
impl Bdd {
    pub fn new(max: usize) -> Bdd {
        Bdd { n: vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)], max, ..Default::default() }
    }
    fn mk(&mut self, v: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(x) = self.u.get(&(v, lo, hi)) {
            return *x;
        }
        if self.n.len() > self.max {
            self.over = true;
            return F;
        }
        self.n.push((v, lo, hi));
        let i = self.n.len() as u32 - 1;
        self.u.insert((v, lo, hi), i);
        i
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, TR)
    }
    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        if self.over {
            return F;
        }
        if f == TR || g == h {
            return g;
        }
        if f == F {
            return h;
        }
        if g == TR && h == F {
            return f;
        }
        if let Some(x) = self.m.get(&(f, g, h)) {
            return *x;
        }
        let v = self.n[f as usize].0.min(self.n[g as usize].0).min(self.n[h as usize].0);
        let c = |s: &Bdd, x: B, hi: bool| -> B {
            let q = s.n[x as usize];
            if q.0 != v {
                x
            } else if hi {
                q.2
            } else {
                q.1
            }
        };
        let (f0, g0, h0) = (c(self, f, false), c(self, g, false), c(self, h, false));
        let (f1, g1, h1) = (c(self, f, true), c(self, g, true), c(self, h, true));
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.m.insert((f, g, h), r);
        r
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        self.ite(a, b, F)
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        self.ite(a, TR, b)
    }
    pub fn not(&mut self, a: B) -> B {
        self.ite(a, F, TR)
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let nb = self.not(b);
        self.ite(a, nb, b)
    }
    fn exists(&mut self, f: B, v: u32) -> B {
        fn go(b: &mut Bdd, x: B, v: u32, memo: &mut HashMap<B, B>) -> B {
            let (y, lo, hi) = b.n[x as usize];
            if x < 2 || y > v {
                return x;
            }
            if let Some(r) = memo.get(&x) {
                return *r;
            }
            let r = if y == v {
                b.or(lo, hi)
            } else {
                let l = go(b, lo, v, memo);
                let h = go(b, hi, v, memo);
                b.mk(y, l, h)
            };
            memo.insert(x, r);
            r
        }
        go(self, f, v, &mut HashMap::new())
    }
    fn support(&self, f: B) -> BTreeSet<u32> {
        let mut s = HashSet::new();
        let mut o = BTreeSet::new();
        let mut w = vec![f];
        while let Some(x) = w.pop() {
            if x < 2 || !s.insert(x) {
                continue;
            }
            let q = self.n[x as usize];
            o.insert(q.0);
            w.push(q.1);
            w.push(q.2);
        }
        o
    }
}

/// atoms by the terms they compare (phase 1)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum A {
    /// discriminant of a term is a constant; type of the term
    Is(T, i128, Option<Rc<str>>),
    /// sum <= k
    Le(Vec<(T, i128)>, i128),
    Lt(T, T),
    Eq(T, T),
    Is1(T),
    /// which way a place was reached, where the conditions do not say
    Way(N, u32),
}
/// atoms by name (what is stored): kind, subject, constant, number of variants
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct V {
    kind: u8, // 0 bool, 1 enum, 2 threshold
    name: String,
    k: i128,
    n: u32,
}

pub struct Gate {
    b: Bdd,
    vars: Vec<A>,
    vid: HashMap<A, u32>,
    heads: Vec<bool>,
    r: Vec<B>,
    re: Vec<B>,
    bye: HashMap<(N, u32, N), usize>,
    memo: HashMap<T, Rc<Vec<(T, B)>>>,
    cmemo: HashMap<T, B>,
    busy: HashSet<T>,
    pub gmap: HashMap<T, Vec<(T, B)>>,
    pub lossy: usize,
}

fn lits(g: &mut Gate, a: A) -> B {
    let n = g.vars.len() as u32;
    let v = *g.vid.entry(a.clone()).or_insert(n);
    if v == n {
        g.vars.push(a);
    }
    g.b.var(v)
}

impl<'p> Eng<'p> {
    fn g_lit(&mut self, g: &mut Gate, t: T, c: i128, eq: bool, adt: Option<Rc<str>>) -> B {
        if let K::Discr(b) = self.tab.k(t).clone() {
            if let K::Agg(n, i, _) = self.tab.k(b).clone() {
                let n = self.tab.str(n).to_string();
                let d = self.p.adts.get(n.as_str()).and_then(|a| a.vars.get(i as usize)).map(|v| v.discr).unwrap_or(i as i128);
                return if (d == c) == eq { TR } else { F };
            }
            let adt = adt.or_else(|| self.discr_adt.get(&t).cloned()).or_else(|| {
                let n = self.tab.tyname(b).split('<').next().unwrap_or("").to_string();
                self.p.adts.get_key_value(n.as_str()).map(|x| x.0.clone())
            });
            let l = self.g_is(g, b, c, adt);
            return if eq { l } else { g.b.not(l) };
        }
        if self.is_cond(t) || self.tab.tyname(t) == "bool" {
            let b = self.g_cond(g, t);
            return if (c != 0) == eq { b } else { g.b.not(b) };
        }
        let mut l = self.tab.lin(t);
        l.k -= c;
        let b = self.g_eq0(g, &l);
        if eq {
            b
        } else {
            g.b.not(b)
        }
    }
    /// one of the variants: each is asked for after those before it, which
    /// makes them exclude each other by construction
    fn g_is(&mut self, g: &mut Gate, b: T, c: i128, adt: Option<Rc<str>>) -> B {
        let ds: Vec<i128> = match adt.as_ref().and_then(|n| self.p.adts.get(n)) {
            Some(a) if a.is_enum => a.vars.iter().map(|v| v.discr).collect(),
            _ => return lits(g, A::Is(b, c, adt)),
        };
        if !ds.contains(&c) {
            return F;
        }
        let mut before = TR;
        let mut r = F;
        for (i, d) in ds.iter().enumerate() {
            // (the one left over needs no variable)
            let l = if i + 1 == ds.len() { TR } else { lits(g, A::Is(b, *d, adt.clone())) };
            if *d == c {
                r = g.b.and(before, l);
            }
            let n = g.b.not(l);
            before = g.b.and(before, n);
        }
        r
    }
    /// the discriminants of the type of a discriminant term
    fn g_discrs(&self, t: T) -> Option<Vec<i128>> {
        let K::Discr(b) = self.tab.k(t) else { return None };
        let n = match self.discr_adt.get(&t) {
            Some(n) => n.to_string(),
            None => self.tab.tyname(*b).split('<').next().unwrap_or("").to_string(),
        };
        let a = self.p.adts.get(n.as_str()).filter(|a| a.is_enum)?;
        Some(a.vars.iter().map(|v| v.discr).collect())
    }
    fn g_le0(&mut self, g: &mut Gate, l: &Lin) -> B {
        let l = l.clone().norm();
        if l.v.is_empty() {
            return if l.k <= 0 { TR } else { F };
        }
        if let [(x, c)] = l.v[..] {
            // discriminants: by variant
            if let (K::Discr(_), true) = (self.tab.k(x).clone(), c == 1 || c == -1) {
                if let Some(ds) = self.g_discrs(x) {
                    let mut acc = F;
                    for d in ds {
                        if c * d + l.k <= 0 {
                            let q = self.g_lit(g, x, d, true, None);
                            acc = g.b.or(acc, q);
                        }
                    }
                    return acc;
                }
            }
        }
        // the larger of two is small when both are
        if l.v.len() <= 4 {
            for (x, c) in l.v.iter().copied() {
                let Some((n, a)) = self.tab.opname(x) else { continue };
                if !matches!(n, "max" | "min") || a.len() != 2 || !(c == 1 || c == -1) {
                    continue;
                }
                let both = (n == "max") == (c > 0);
                let a = a.to_vec();
                let mut q = vec![];
                for y in a {
                    let mut m = l.clone();
                    m.v.retain(|t| t.0 != x);
                    let ly = self.tab.lin(y);
                    let Some(sum) = m.add(&ly, c) else { break };
                    q.push(sum);
                }
                if let [p, r] = &q[..] {
                    let (p, r) = (self.g_le0(g, p), self.g_le0(g, r));
                    return if both { g.b.and(p, r) } else { g.b.or(p, r) };
                }
            }
        }
        // orientation by term id for now
        let (v, k, neg) = if l.v[0].1 < 0 { (l.v.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>(), l.k - 1, true) } else { (l.v.clone(), -l.k, false) };
        if v.len() == 1 && v[0].1 == 1 {
            let x = v[0].0;
            let len = matches!(self.tab.k(x), K::Len(_)) || matches!(self.tab.opname(x), Some(("len", _)));
            let rg = int_range(self.tab.tyname(x)).or(if len { Some((0, i128::MAX)) } else { None });
            if let Some((lo, hi)) = rg {
                if k < lo {
                    return if neg { TR } else { F };
                }
                if k >= hi {
                    return if neg { F } else { TR };
                }
            }
        }
        let b = lits(g, A::Le(v, k));
        if neg {
            g.b.not(b)
        } else {
            b
        }
    }
    fn g_eq0(&mut self, g: &mut Gate, l: &Lin) -> B {
        if l.v.is_empty() {
            return if l.k == 0 { TR } else { F };
        }
        if let [(x, c)] = l.v[..] {
            if matches!(self.tab.k(x), K::Discr(_)) && (c == 1 || c == -1) {
                return self.g_lit(g, x, -c * l.k, true, None);
            }
        }
        let a = self.g_le0(g, l);
        let Some(m) = l.scale(-1) else { return F };
        let b = self.g_le0(g, &m);
        g.b.and(a, b)
    }
    /// condition of a boolean term, merges expanded
    fn g_cond(&mut self, g: &mut Gate, t: T) -> B {
        if let Some(x) = g.cmemo.get(&t) {
            return *x;
        }
        let r = self.g_cond0(g, t);
        g.cmemo.insert(t, r);
        r
    }
    fn g_cond0(&mut self, g: &mut Gate, t: T) -> B {
        if let Some(i) = self.tab.as_int(t) {
            return if i != 0 { TR } else { F };
        }
        if let Some((n, a)) = self.tab.opname(t) {
            let (n, a) = (n.to_string(), a.to_vec());
            match n.as_str() {
                "not" => {
                    let x = self.g_cond(g, a[0]);
                    return g.b.not(x);
                }
                "and" | "or" if a.len() == 2 => {
                    let x = self.g_cond(g, a[0]);
                    let y = self.g_cond(g, a[1]);
                    return if n == "and" { g.b.and(x, y) } else { g.b.or(x, y) };
                }
                _ => {}
            }
        }
        let ls = self.gate(g, t);
        if ls.len() != 1 || ls[0].0 != t {
            let mut acc = F;
            for (x, q) in ls.iter().copied() {
                let c = if x == t { self.g_atom(g, x) } else { self.g_cond(g, x) };
                let c = g.b.and(q, c);
                acc = g.b.or(acc, c);
            }
            return acc;
        }
        self.g_atom(g, t)
    }
    fn g_atom(&mut self, g: &mut Gate, t: T) -> B {
        if let Some((n, a)) = self.tab.opname(t) {
            let (n, a) = (n.to_string(), a.to_vec());
            match n.as_str() {
                "le0" => {
                    let l = self.tab.raw_lin(a[0]);
                    return self.g_le0(g, &l);
                }
                "eq0" => {
                    let l = self.tab.raw_lin(a[0]);
                    return self.g_eq0(g, &l);
                }
                "eq" if a.len() == 2 => {
                    if a[0] == a[1] {
                        return TR;
                    }
                    return lits(g, A::Eq(a[0].min(a[1]), a[0].max(a[1])));
                }
                "lt" if a.len() == 2 => {
                    if a[0] == a[1] {
                        return F;
                    }
                    return lits(g, A::Lt(a[0], a[1]));
                }
                _ => {}
            }
        }
        lits(g, A::Is1(t))
    }
    /// the values a term stands for, with the condition of each
    fn gate(&mut self, g: &mut Gate, t: T) -> Rc<Vec<(T, B)>> {
        if let Some(x) = g.memo.get(&t) {
            return x.clone();
        }
        let ps: Vec<T> = self.tab.phis[t as usize].iter().copied().filter(|p| !self.g_opaque(g, *p)).collect();
        let r = if ps.is_empty() {
            Rc::new(vec![(t, TR)])
        } else if let K::Phi(h, _) = self.tab.k(t).clone() {
            Rc::new(self.gate_phi(g, t, h))
        } else {
            let mut combos: Vec<(HashMap<T, T>, B)> = vec![(HashMap::new(), TR)];
            for p in ps {
                let ls = self.gate(g, p);
                if ls.len() == 1 && ls[0].0 == p {
                    continue;
                }
                let mut next = vec![];
                for (m, c) in &combos {
                    for (x, q) in ls.iter() {
                        let d = g.b.and(*c, *q);
                        if d == F {
                            continue;
                        }
                        let mut m2 = m.clone();
                        m2.insert(p, *x);
                        next.push((m2, d));
                    }
                }
                if next.len() > LIM {
                    g.lossy += 1;
                    next.clear();
                    combos = next;
                    break;
                }
                combos = next;
            }
            if combos.is_empty() {
                Rc::new(vec![(t, TR)])
            } else {
                let mut out: BTreeMap<T, B> = BTreeMap::new();
                for (m, c) in combos {
                    let mut x = self.tab.subst(t, &m, &mut HashMap::new());
                    x = self.g_fold(x, 6);
                    if let (K::Discr(_), Some(n)) = (self.tab.k(x).clone(), self.discr_adt.get(&t).cloned()) {
                        self.discr_adt.entry(x).or_insert(n);
                    }
                    let e = out.entry(x).or_insert(F);
                    *e = g.b.or(*e, c);
                }
                Rc::new(out.into_iter().collect())
            }
        };
        g.memo.insert(t, r.clone());
        r
    }
    fn g_opaque(&self, g: &Gate, p: T) -> bool {
        match self.tab.k(p) {
            K::Phi(h, _) => g.heads[*h as usize] || g.gmap.contains_key(&p) || g.busy.contains(&p) || !self.nodes[*h as usize].pmap.contains_key(&p),
            _ => true,
        }
    }
    fn gate_phi(&mut self, g: &mut Gate, p: T, h: N) -> Vec<(T, B)> {
        let m = self.nodes[h as usize].pmap[&p].clone();
        g.busy.insert(p);
        let mut out: BTreeMap<T, B> = BTreeMap::new();
        for ((f, o), v) in m {
            let Some(e) = g.bye.get(&(f, o, h)).copied() else { continue };
            let q = g.re[e];
            if q == F {
                continue;
            }
            for (x, c) in self.gate(g, v).iter().copied() {
                let d = g.b.and(q, c);
                if d != F {
                    let s = out.entry(x).or_insert(F);
                    *s = g.b.or(*s, d);
                }
            }
        }
        g.busy.remove(&p);
        if out.len() > LIM || out.is_empty() || out.contains_key(&p) {
            g.lossy += 1;
            let v: Vec<(T, B)> = out.into_iter().collect();
            g.gmap.insert(p, v);
            return vec![(p, TR)];
        }
        out.into_iter().collect()
    }
    fn g_fold(&mut self, t: T, d: usize) -> T {
        if d == 0 {
            return t;
        }
        if let K::Agg(n, v, a) = self.tab.k(t).clone() {
            if a.is_empty() || a.len() > 24 {
                return t;
            }
            let b: Vec<T> = a.iter().map(|x| self.g_fold(*x, d - 1)).collect();
            return if b[..] == a[..] { t } else { self.tab.mk(K::Agg(n, v, b.into())) };
        }
        if let Some((n, a)) = self.tab.opname(t) {
            let (n, a) = (n.to_string(), a.to_vec());
            if n == "concat" && a.len() > 1 {
                let b: Vec<T> = a.iter().map(|x| self.g_fold(*x, d - 1)).collect();
                let mut x = b[0];
                for y in &b[1..] {
                    x = self.concat(x, *y);
                }
                return x;
            }
            if a.len() == 2 {
                let (x, y) = (self.g_fold(a[0], d - 1), self.g_fold(a[1], d - 1));
                let (i, j) = (self.tab.as_int(x), self.tab.as_int(y));
                match (n.as_str(), i, j) {
                    ("bor" | "bxor" | "sat_add", Some(0), _) => return y,
                    ("bor" | "bxor" | "shl" | "shr" | "sat_add" | "sat_sub", _, Some(0)) => return x,
                    ("band", Some(0), _) => return x,
                    ("band", _, Some(0)) => return y,
                    ("band", Some(i), Some(j)) => return self.tab.int(i & j),
                    ("bor", Some(i), Some(j)) => return self.tab.int(i | j),
                    ("bxor", Some(i), Some(j)) => return self.tab.int(i ^ j),
                    ("min", Some(i), Some(j)) => return self.tab.int(i.min(j)),
                    ("max", Some(i), Some(j)) => return self.tab.int(i.max(j)),
                    ("mul", Some(i), Some(j)) => return self.tab.int(i.saturating_mul(j)),
                    ("mul", Some(1), _) => return y,
                    ("mul", _, Some(1)) => return x,
                    ("mul", Some(0), _) => return x,
                    ("mul", _, Some(0)) => return y,
                    ("min" | "max" | "band" | "bor", ..) if x == y => return x,
                    _ => {}
                }
                if (x, y) != (a[0], a[1]) {
                    return match n.as_str() {
                        "mul" => self.tab.mul(x, y),
                        _ => self.tab.op(&n, &[x, y]),
                    };
                }
            }
        }
        t
    }
    /// leaves by field path
    #[allow(clippy::too_many_arguments)]
    fn g_flat(&mut self, g: &mut Gate, st: &St, v: T, c: B, path: &str, d: usize, skip: &dyn Fn(&str) -> bool, out: &mut BTreeMap<String, Vec<(Leaf, B)>>) {
        if c == F || skip(path) {
            return;
        }
        if out.len() > 600 {
            g.lossy += 1;
            return;
        }
        // expand merges at this place only
        let mut ls: Vec<(T, B)> = vec![(v, c)];
        for _ in 0..12 {
            let mut next: Vec<(T, B)> = vec![];
            let mut ch = false;
            for (x, q) in ls {
                let y = self.deref_val(st, x);
                ch |= y != x;
                if let K::Phi(..) = self.tab.k(y) {
                    if !self.g_opaque(g, y) {
                        let gs = self.gate(g, y);
                        if !(gs.len() == 1 && gs[0].0 == y) {
                            ch = true;
                            for (z, w) in gs.iter().copied() {
                                let w = g.b.and(q, w);
                                if w != F {
                                    next.push((z, w));
                                }
                            }
                            continue;
                        }
                    }
                }
                // a structure one way and something written to it the other: told apart together
                if matches!(self.tab.k(y), K::Upd(..)) && self.struct_of(y).is_none() || !matches!(self.tab.k(y), K::Agg(..) | K::Upd(..) | K::Phi(..)) {
                    let gs = self.gate(g, y);
                    if gs.len() > 1 && gs.iter().any(|z| matches!(self.tab.k(z.0), K::Upd(..))) {
                        ch = true;
                        for (z, w) in gs.iter().copied() {
                            let w = g.b.and(q, w);
                            if w != F {
                                next.push((z, w));
                            }
                        }
                        continue;
                    }
                }
                next.push((y, q));
            }
            ls = next;
            if !ch {
                break;
            }
        }
        // a structure built or written to by one of them is its fields
        let whole = ls.iter().any(|(x, _)| match self.tab.k(*x) {
            K::Upd(_, Pr::F(..), _) => true,
            K::Agg(n, _, a) => {
                let n = self.tab.str(*n);
                a.len() > 0 && n != "vec" && self.p.adts.get(n).is_some_and(|a| !a.is_enum)
            }
            _ => false,
        });
        if let (true, true, Some(ad)) = (whole, d > 0, ls.iter().find_map(|(x, _)| self.struct_of(*x))) {
            let p = self.p;
            let fs = &p.adts[&*ad].vars[0].fields;
            if fs.len() < 24 {
                for (x, q) in ls {
                    for (i, f) in fs.iter().enumerate() {
                        let y = match self.tab.k(x).clone() {
                            K::Agg(_, _, a) if i < a.len() => a[i],
                            _ => self.tab.field(x, -1, i as u32),
                        };
                        self.g_flat(g, st, y, q, &format!("{path}.{}", f.0), d - 1, skip, out);
                    }
                }
                return;
            }
        }
        // fields written on some of them
        let mut upd: BTreeSet<(i32, u32)> = BTreeSet::new();
        for (x, _) in &ls {
            let mut y = *x;
            while let K::Upd(b, Pr::F(v, i), _) = self.tab.k(y).clone() {
                upd.insert((v, i));
                y = b;
            }
        }
        for (x, q) in ls {
            if !upd.is_empty() && d > 0 {
                let mut y = x;
                while let K::Upd(b, Pr::F(..), _) = self.tab.k(y).clone() {
                    y = b;
                }
                if !matches!(self.tab.k(y), K::Agg(..)) {
                    for (v, i) in &upd {
                        let f = self.tab.field(x, *v, *i);
                        let base = self.tab.field(y, *v, *i);
                        let nm = self.g_fname(y, *v, *i);
                        let _ = base;
                        self.g_flat(g, st, f, q, &format!("{path}.{nm}"), d - 1, skip, out);
                    }
                    out.entry(path.to_string()).or_default().push((Leaf::T(y), q));
                    continue;
                }
            }
            match self.tab.k(x).clone() {
                K::Agg(n, i, a) if d > 0 => {
                    let nm = self.tab.str(n).to_string();
                    if nm != "vec" && a.len() < 24 {
                        let p = self.p;
                        let en = p.adts.get(nm.as_str()).filter(|x| x.is_enum);
                        let mut pre = path.to_string();
                        if let Some(ad) = en {
                            let vn = ad.vars.get(i as usize).map(|x| x.name.to_string()).unwrap_or_default();
                            out.entry(path.to_string()).or_default().push((Leaf::Tag(vn.clone()), q));
                            if vn == "Err" && nm.ends_with("::Result") {
                                continue;
                            }
                            pre = format!("{path}.{vn}");
                        }
                        for (j, x) in a.iter().enumerate() {
                            let f = p
                                .adts
                                .get(nm.as_str())
                                .and_then(|ad| ad.vars.get(if ad.is_enum { i as usize } else { 0 }))
                                .and_then(|vv| vv.fields.get(j).map(|f| f.0.to_string()))
                                .unwrap_or_else(|| j.to_string());
                            self.g_flat(g, st, *x, q, &format!("{pre}.{f}"), d - 1, skip, out);
                        }
                        continue;
                    }
                }
                _ => {}
            }
            // an opaque result or option is either
            if let (K::Field(b, -1, i), "") = (self.tab.k(x).clone(), self.tab.tyname(x)) {
                if let Some(a) = self.struct_of(b) {
                    let p = self.p;
                    if let Some(f) = p.adts[&*a].vars[0].fields.get(i as usize).filter(|f| f.1.starts_with("core::option::Option<")) {
                        self.tab.set_ty(x, &f.1);
                    }
                }
            }
            let ty = self.tab.tyname(x).split('<').next().unwrap_or("").to_string();
            if (ty == "core::result::Result" || ty == "core::option::Option") && d > 0 && !matches!(self.tab.k(x), K::Agg(..)) {
                let opt = ty.ends_with("Option");
                let dt = self.tab.mk(K::Discr(x));
                let key = self.p.adts.get_key_value(ty.as_str()).map(|y| y.0.clone());
                for leafd in self.gate(g, dt).iter().copied().collect::<Vec<_>>() {
                    let b = match self.tab.k(leafd.0).clone() {
                        K::Discr(b) => b,
                        _ => x,
                    };
                    let l = self.g_lit(g, leafd.0, 1, true, key.clone());
                    let base = g.b.and(q, leafd.1);
                    let (one, zero) = {
                        let o = g.b.and(base, l);
                        let nl = g.b.not(l);
                        (o, g.b.and(base, nl))
                    };
                    for (w, i) in [(zero, 0), (one, 1)] {
                        if w == F {
                            continue;
                        }
                        let vn = match (opt, i) {
                            (true, 0) => "None",
                            (true, _) => "Some",
                            (false, 0) => "Ok",
                            _ => "Err",
                        };
                        out.entry(path.to_string()).or_default().push((Leaf::Tag(vn.into()), w));
                        if vn == "Some" || vn == "Ok" {
                            let f = self.tab.field(b, i, 0);
                            self.g_flat(g, st, f, w, &format!("{path}.{vn}.0"), d - 1, skip, out);
                        }
                    }
                }
                continue;
            }
            for (y, w) in self.gate(g, x).iter().copied().collect::<Vec<_>>() {
                let w = g.b.and(q, w);
                if w != F {
                    if y != x && matches!(self.tab.k(y), K::Agg(..) | K::Upd(..)) && d > 0 {
                        self.g_flat(g, st, y, w, path, d - 1, skip, out);
                    } else {
                        out.entry(path.to_string()).or_default().push((Leaf::T(y), w));
                    }
                }
            }
        }
    }
    /// the structure a value is
    pub fn struct_of(&self, v: T) -> Option<Rc<str>> {
        let known = |n: &str| self.p.adts.get_key_value(n.split('<').next().unwrap_or("")).filter(|a| !a.1.is_enum && a.1.vars.len() == 1).map(|a| a.0.clone());
        match self.tab.k(v) {
            K::Agg(n, _, _) => known(self.tab.str(*n)),
            K::Upd(b, Pr::F(..), _) => self.struct_of(*b),
            _ => {
                let t = self.tab.tyname(v);
                if !t.is_empty() {
                    return known(t);
                }
                if let K::Field(b, var @ (0 | 1), 0) = self.tab.k(v) {
                    // what an option or a result holds
                    let t = self.tab.tyname(*b);
                    let (n, args) = t.split_once('<')?;
                    let args = args.strip_suffix('>')?;
                    let mut d = 0;
                    let cut = args.char_indices().find(|(_, c)| {
                        d += matches!(c, '<' | '(' | '[') as i32 - matches!(c, '>' | ')' | ']') as i32;
                        *c == ',' && d == 0
                    });
                    let (a, b) = cut.map(|(i, _)| (&args[..i], args[i + 1..].trim())).unwrap_or((args, ""));
                    let t = match (n, var) {
                        ("core::option::Option", 1) | ("core::result::Result", 0) => a,
                        ("core::result::Result", 1) => b,
                        _ => return None,
                    };
                    return known(t.trim_start_matches('&').trim_start_matches("mut "));
                }
                if let K::Field(b, -1, i) = self.tab.k(v) {
                    let s = self.struct_of(*b)?;
                    return known(&self.p.adts[&*s].vars[0].fields.get(*i as usize)?.1);
                }
                None
            }
        }
    }
    fn g_fname(&self, base: T, var: i32, i: u32) -> String {
        let ty = match self.struct_of(base) {
            Some(n) => n.to_string(),
            None => self.tab.tyname(base).to_string(),
        };
        let n = ty.split('<').next().unwrap_or("");
        self.p
            .adts
            .get(n)
            .and_then(|a| a.vars.get(var.max(0) as usize))
            .and_then(|v| v.fields.get(i as usize))
            .map(|f| f.0.to_string())
            .unwrap_or_else(|| i.to_string())
    }

    /// the gated form; compared with the reference's when there is one
    pub fn gated(&mut self, rf: Option<&Value>) -> (Value, Value) {
        let n = self.nodes.len();
        let ne = self.edges.len();
        let mut outs: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..ne {
            outs[self.edges[i].from as usize].push(i);
        }
        // back edges, order
        let mut color = vec![0u8; n];
        let mut back = vec![false; ne];
        let mut post: Vec<N> = vec![];
        let mut stack: Vec<(N, usize)> = vec![(0, 0)];
        color[0] = 1;
        // successors in order of exploration priority: deterministic
        while let Some((x, k)) = stack.pop() {
            if k < outs[x as usize].len() {
                stack.push((x, k + 1));
                let e = outs[x as usize][k];
                let y = self.edges[e].to;
                match color[y as usize] {
                    0 => {
                        color[y as usize] = 1;
                        stack.push((y, 0));
                    }
                    1 => back[e] = true,
                    _ => {}
                }
            } else {
                color[x as usize] = 2;
                post.push(x);
            }
        }
        post.reverse();
        let mut g = Gate {
            b: Bdd::new(3_000_000),
            vars: vec![],
            vid: HashMap::new(),
            heads: vec![false; n],
            r: vec![F; n],
            re: vec![F; ne],
            bye: HashMap::new(),
            memo: HashMap::new(),
            cmemo: HashMap::new(),
            busy: HashSet::new(),
            gmap: HashMap::new(),
            lossy: 0,
        };
        for i in 0..ne {
            let e = &self.edges[i];
            g.bye.insert((e.from, e.oi, e.to), i);
            if back[i] {
                g.heads[e.to as usize] = true;
            }
        }
        // loops: what they consist of, and the test that asks whether there
        // is more to come.  It says nothing once the loop is left.
        let mut loops: BTreeMap<N, (HashSet<N>, N, BTreeSet<u32>)> = BTreeMap::new();
        let mut ins: Vec<Vec<N>> = vec![vec![]; n];
        let mut inedges: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, e) in self.edges[..ne].iter().enumerate() {
            ins[e.to as usize].push(e.from);
            inedges[e.to as usize].push(i);
        }
        for i in 0..ne {
            if !back[i] {
                continue;
            }
            let (h, f) = (self.edges[i].to, self.edges[i].from);
            let l = loops.entry(h).or_insert_with(|| ([h].into_iter().collect(), h, BTreeSet::new()));
            let mut w = vec![f];
            while let Some(x) = w.pop() {
                if l.0.insert(x) {
                    w.extend(ins[x as usize].iter().copied());
                }
            }
        }
        let mut tests: HashMap<N, Vec<N>> = HashMap::new();
        for (h, l) in loops.iter_mut() {
            let mut x = *h;
            let mut k = 0;
            while outs[x as usize].len() == 1 && k < 60 {
                x = self.edges[outs[x as usize][0]].to;
                k += 1;
            }
            l.1 = x;
            if l.0.contains(&x) {
                tests.entry(x).or_default().push(*h);
            }
        }
        // which merged values matter for what the function yields
        let mut live: HashSet<T> = HashSet::new();
        let mut w: Vec<T> = vec![];
        for e in self.exits.iter().map(|e| (e.st.clone(), e.ret)).collect::<Vec<_>>() {
            let v = self.resolve(&e.0, e.1, 6);
            w.extend(self.tab.phis[v as usize].iter());
            for r in self.entry_roots.clone().into_iter().flatten().chain(self.cells.clone().into_iter().map(|c| c.1)) {
                if let Some(v) = e.0.vals.get(&r).copied() {
                    let v = self.resolve(&e.0, v, 6);
                    w.extend(self.tab.phis[v as usize].iter());
                }
            }
        }
        for e in &self.events {
            for a in &e.args {
                w.extend(self.tab.phis[*a as usize].iter());
            }
        }
        for e in &self.edges {
            for (a, ..) in &e.atoms {
                w.extend(self.tab.phis[*a as usize].iter());
            }
        }
        while let Some(p) = w.pop() {
            if !live.insert(p) {
                continue;
            }
            if let K::Phi(h, _) = self.tab.k(p) {
                for v in self.nodes[*h as usize].pmap.get(&p).into_iter().flat_map(|m| m.values()) {
                    w.extend(self.tab.phis[*v as usize].iter());
                }
            }
        }
        // the ways to leave a loop that lead to the same place with the same
        // values
        let acts: HashSet<N> = self.events.iter().filter(|e| e.eff).map(|e| e.node).collect();
        let chain = |e: usize| {
            let mut o = vec![e];
            while o.len() < 60 {
                let y = self.edges[*o.last().unwrap()].to;
                if acts.contains(&y) || outs[y as usize].len() != 1 || back[outs[y as usize][0]] {
                    break;
                }
                o.push(outs[y as usize][0]);
            }
            o
        };
        let same = |x: usize, y: usize| {
            let (a, b) = (chain(x), chain(y));
            let Some((i, j)) = a.iter().find_map(|i| b.iter().find(|j| self.edges[**j].to == self.edges[*i].to).map(|j| (*i, *j))) else { return false };
            if i == j {
                return true;
            }
            // what a merged value is, coming this way
            let via = |p: &T, k: usize, c: &[usize]| {
                let e = &self.edges[k];
                let mut v = *self.nodes[e.to as usize].pmap.get(p)?.get(&(e.from, e.oi))?;
                for k in c.iter().rev().skip_while(|x| **x != k).skip(1) {
                    let e = &self.edges[*k];
                    if let Some(u) = self.nodes[e.to as usize].pmap.get(&v).and_then(|m| m.get(&(e.from, e.oi))) {
                        v = *u;
                    }
                }
                Some(v)
            };
            // a value the way out itself has pinned down is still that value
            let pinned = |u: Option<T>, v: Option<T>, e: usize| {
                let (Some(u), Some(v)) = (u, v) else { return false };
                self.tab.as_int(u).is_some() && matches!(self.tab.k(v), K::Phi(..)) && self.edges[e].atoms.iter().any(|(t, ..)| self.tab.phis[*t as usize].contains(&v))
            };
            self.nodes[self.edges[i].to as usize].pmap.keys().all(|p| {
                let (u, v) = (via(p, i, &a), via(p, j, &b));
                !live.contains(p) || u == v || pinned(u, v, x) || pinned(v, u, y)
            })
        };
        let mut on: HashSet<(usize, N)> = HashSet::new();
        for (h, l) in &loops {
            let ex: Vec<usize> = (0..ne).filter(|e| !back[*e] && l.0.contains(&self.edges[*e].from) && !l.0.contains(&self.edges[*e].to)).collect();
            let Some(base) = ex.iter().find(|e| self.edges[**e].from == l.1).or(ex.iter().max_by_key(|e| ex.iter().filter(|f| same(**e, **f)).count())).copied() else { continue };
            for e in ex {
                if e == base || same(e, base) {
                    on.insert((e, *h));
                }
            }
        }
        g.r[0] = TR;
        for x in &post {
            // conditions that overlap do not tell which way was taken: what
            // is merged here belongs together all the same
            if self.nodes[*x as usize].pmap.values().any(|m| m.values().any(|v| Some(v) != m.values().next())) && !g.heads[*x as usize] {
                let es: Vec<usize> = inedges[*x as usize].iter().copied().filter(|e| !back[*e] && g.re[*e] != F).collect();
                let over = es.iter().enumerate().any(|(i, e)| es[..i].iter().any(|f| g.b.and(g.re[*e], g.re[*f]) != F));
                if over && es.len() < 9 {
                    let mut rest = TR;
                    let mut all = F;
                    for (i, e) in es.iter().enumerate() {
                        let w = if i + 1 == es.len() { TR } else { lits(&mut g, A::Way(*x, i as u32)) };
                        let here = g.b.and(rest, w);
                        let nw = g.b.not(w);
                        rest = g.b.and(rest, nw);
                        g.re[*e] = g.b.and(g.re[*e], here);
                        all = g.b.or(all, g.re[*e]);
                    }
                    g.r[*x as usize] = all;
                }
            }
            let rx = g.r[*x as usize];
            for e in outs[*x as usize].clone() {
                let mut c = rx;
                for (t, k, eq) in self.edges[e].atoms.clone() {
                    if self.always((t, k, eq)) {
                        continue;
                    }
                    let l = self.g_edge_lit(&mut g, t, k, eq);
                    c = g.b.and(c, l);
                    for (h, lp) in loops.iter_mut() {
                        if !on.contains(&(e, *h)) && !tests.get(x).is_some_and(|t| t.contains(h)) {
                            continue;
                        }
                        for v in g.b.support(l) {
                            if let A::Le(ts, _) = &g.vars[v as usize] {
                                if ts.iter().any(|(t, _)| self.tab.phis[*t as usize].iter().any(|p| matches!(self.tab.k(*p), K::Phi(q, _) if lp.0.contains(q)))) {
                                    lp.2.insert(v);
                                }
                            }
                        }
                    }
                }
                let to = self.edges[e].to;
                for lp in loops.values() {
                    if lp.0.contains(x) && !lp.0.contains(&to) {
                        for v in &lp.2 {
                            c = g.b.exists(c, *v);
                        }
                    }
                }
                g.re[e] = c;
                if !back[e] {
                    let y = self.edges[e].to as usize;
                    g.r[y] = g.b.or(g.r[y], c);
                }
            }
            if g.b.over {
                return (Value::Null, json!("size 1"));
            }
        }
        // ---- what the function yields
        let mut out: BTreeMap<String, Vec<(Leaf, B)>> = BTreeMap::new();
        let nocost = self.cfg.nocost;
        let costonly = self.cfg.costonly;
        let skip = move |p: &str| {
            let c = p.contains(".cost") || p.contains("cost.");
            nocost && c || costonly && p.starts_with("ret.value")
        };
        let ex: Vec<(N, Rc<St>, T)> = self.exits.iter().map(|e| (e.node, e.st.clone(), e.ret)).collect();
        for (nd, st, r) in ex {
            let c = g.r[nd as usize];
            self.g_flat(&mut g, &st, r, c, "ret", 9, &skip, &mut out);
            for (i, root) in self.entry_roots.clone().into_iter().enumerate() {
                let Some(root) = root else { continue };
                if let Some(v) = st.vals.get(&root).copied() {
                    let v = self.resolve(&st, v, 6);
                    self.g_flat(&mut g, &st, v, c, &format!("p{i}"), 8, &skip, &mut out);
                }
            }
            for (t, root) in self.cells.clone() {
                let v = self.load(&st, root, &[]);
                let v = self.resolve(&st, v, 6);
                let n = self.show(t);
                if v != t {
                    self.g_flat(&mut g, &st, v, c, &n, 8, &skip, &mut out);
                    if let Some(l) = out.get_mut(&n) {
                        l.retain(|x| !matches!(x.0, Leaf::T(x) if x == t));
                    }
                }
            }
        }
        // a structure left whole at one exit and told by its fields at another
        if let Some(st) = self.exits.first().map(|e| e.st.clone()) {
            for _ in 0..3 {
                let mut more: Vec<(String, T, B, Rc<str>)> = vec![];
                let ks: Vec<String> = out.keys().cloned().collect();
                for p in ks {
                    let pre = format!("{p}.");
                    if !out.range(pre.clone()..).next().is_some_and(|x| x.0.starts_with(&pre)) {
                        continue;
                    }
                    let (keys, e) = (&self.p.adts, &*self);
                    let has: BTreeSet<String> = out.range(pre.clone()..).take_while(|x| x.0.starts_with(&pre)).map(|x| x.0[pre.len()..].split('.').next().unwrap().to_string()).collect();
                    let pick = |l: &Leaf| match l {
                        Leaf::T(t) => e.struct_of(*t).filter(|a| keys[a].vars[0].fields.len() < 24 && keys[a].vars[0].fields.iter().any(|f| has.contains(&*f.0))).map(|a| (*t, a)),
                        _ => None,
                    };
                    for (l, c) in &out[&p] {
                        if let Some((t, a)) = pick(l) {
                            more.push((p.clone(), t, *c, a));
                        }
                    }
                }
                if more.is_empty() {
                    break;
                }
                for (p, t, c, ad) in more {
                    out.get_mut(&p).unwrap().retain(|x| !(matches!(x.0, Leaf::T(y) if y == t) && x.1 == c));
                    if out[&p].is_empty() {
                        out.remove(&p);
                    }
                    let pr = self.p;
                    for (i, f) in pr.adts[&*ad].vars[0].fields.iter().enumerate() {
                        let y = self.tab.field(t, -1, i as u32);
                        self.g_flat(&mut g, &st, y, c, &format!("{p}.{}", f.0), 6, &skip, &mut out);
                    }
                }
            }
        }
        if costonly {
            const PARTS: [&str; 9] = ["cost", "seek_count", "loaded_bytes", "hash_node_calls", "hash_calls", "added_bytes", "replaced_bytes", "removed_bytes", "transition"];
            out.retain(|p, _| PARTS.iter().any(|x| p.contains(x)));
        }
        let evs: Vec<(N, String, Vec<T>)> = self
            .events
            .iter()
            .filter(|e| {
                if costonly {
                    false
                } else if self.cfg.auto {
                    e.eff
                } else {
                    e.eff || self.cfg.track.iter().any(|t| e.name.contains(t.as_str())) && !self.cfg.quiet.iter().any(|t| e.name.contains(t.as_str()))
                }
            })
            .map(|e| (e.node, e.name.to_string(), e.args.clone()))
            .collect();
        // effects in their order
        if evs.len() <= 80 {
            for (na, a, _) in &evs {
                if evs.iter().all(|(_, b, _)| a == b) {
                    continue;
                }
                let mut see = vec![false; n];
                let mut w = vec![*na];
                while let Some(x) = w.pop() {
                    for e in &outs[x as usize] {
                        let y = self.edges[*e].to;
                        if !back[*e] && !std::mem::replace(&mut see[y as usize], true) {
                            w.push(y);
                        }
                    }
                }
                for (nb, b, _) in &evs {
                    if a != b && nb != na && see[*nb as usize] {
                        let c = g.b.and(g.r[*na as usize], g.r[*nb as usize]);
                        if c != F {
                            out.entry(format!("order {a}")).or_default().push((Leaf::Tag(b.clone()), c));
                        }
                    }
                }
            }
        }
        for (nd, name, args) in evs {
            let t = self.tab.tuple(&args);
            let c = g.r[nd as usize];
            for (x, q) in self.gate(&mut g, t).iter().copied().collect::<Vec<_>>() {
                let w = g.b.and(c, q);
                if w != F {
                    out.entry(format!("call {name}")).or_default().push((Leaf::T(x), w));
                }
            }
        }
        if g.b.over {
            return (Value::Null, json!("size 2"));
        }
        // ---- names
        let heads: Vec<(T, N)> = (0..n)
            .filter(|x| g.heads[*x])
            .flat_map(|x| self.nodes[x].pmap.keys().map(move |t| (*t, x as N)).collect::<Vec<_>>())
            .collect();
        for (p, h) in heads {
            let m = self.nodes[h as usize].pmap[&p].clone();
            let mut o: BTreeMap<T, B> = BTreeMap::new();
            for ((f, oi), v) in m {
                let Some(e) = g.bye.get(&(f, oi, h)).copied() else { continue };
                let q = g.re[e];
                if q == F {
                    continue;
                }
                for (x, c) in self.gate(&mut g, v).iter().copied().collect::<Vec<_>>() {
                    let d = g.b.and(q, c);
                    if d == F {
                        continue;
                    }
                    // a truth value is carried as what it is on each path
                    let ps = if self.is_cond(x) || self.tab.tyname(x) == "bool" && !matches!(self.tab.k(x), K::Discr(_) | K::Int(_)) && !g.gmap.contains_key(&x) && !self.nodes[h as usize].pmap.contains_key(&x) {
                        let y = self.g_cond(&mut g, x);
                        let ny = g.b.not(y);
                        vec![(self.tab.int(0), g.b.and(d, ny)), (self.tab.int(1), g.b.and(d, y))]
                    } else {
                        vec![(x, d)]
                    };
                    for (x, d) in ps {
                        if d != F {
                            let s = o.entry(x).or_insert(F);
                            *s = g.b.or(*s, d);
                        }
                    }
                }
            }
            g.gmap.insert(p, o.into_iter().collect());
        }
        self.g_shift(&mut g, &mut out);
        let gm: HashMap<T, Vec<T>> = g.gmap.iter().map(|(k, v)| (*k, v.iter().map(|x| x.0).collect())).collect();
        self.gmap = Some(gm);
        let keep = std::mem::take(&mut self.canon);
        let r = self.g_names(&mut g, out, rf);
        self.gmap = None;
        self.canon = keep;
        r
    }
    /// what a loop adds up starts at nothing: `s = e; loop { s += x }` is
    /// `e + (s = 0; loop { s += x })`
    fn g_shift(&mut self, g: &mut Gate, out: &mut BTreeMap<String, Vec<(Leaf, B)>>) {
        let mut ps: Vec<T> = g.gmap.keys().copied().collect();
        ps.sort();
        for p in ps {
            let one = self.tab.int(1);
            let p1 = self.tab.add(p, one);
            let m: HashMap<T, T> = [(p, p1)].into_iter().collect();
            let mut memo = HashMap::new();
            let alts = g.gmap[&p].clone();
            let mut init = None;
            let mut ok = true;
            for (x, _) in &alts {
                if self.tab.subst(*x, &m, &mut memo) == *x {
                    ok &= init.is_none();
                    init = Some(*x);
                } else {
                    let l = self.tab.raw_lin(*x);
                    ok &= l.v.iter().any(|(t, c)| *t == p && *c == 1);
                    for (t, _) in &l.v {
                        ok &= *t == p || self.tab.subst(*t, &m, &mut memo) == *t;
                    }
                }
            }
            let Some(e) = init else { continue };
            if !ok || alts.len() < 2 || self.tab.as_int(e) == Some(0) || matches!(self.tab.k(e), K::Agg(..) | K::Bytes(..) | K::Str(..)) {
                continue;
            }
            // not what decides anything
            let at: Vec<T> = g
                .vars
                .iter()
                .flat_map(|a| match a {
                    A::Is(t, _, _) | A::Is1(t) => vec![*t],
                    A::Le(v, _) => v.iter().map(|x| x.0).collect(),
                    A::Way(..) => vec![],
                    A::Lt(a, b) | A::Eq(a, b) => vec![*a, *b],
                })
                .collect();
            if at.iter().any(|t| self.tab.subst(*t, &m, &mut memo) != *t) {
                continue;
            }
            let pe = self.tab.add(p, e);
            let m: HashMap<T, T> = [(p, pe)].into_iter().collect();
            let mut memo = HashMap::new();
            for v in out.values_mut() {
                for (x, _) in v.iter_mut() {
                    if let Leaf::T(t) = x {
                        *t = self.tab.subst(*t, &m, &mut memo);
                    }
                }
            }
            let mut ks: Vec<T> = g.gmap.keys().copied().collect();
            ks.sort();
            for q in ks {
                let v = g.gmap[&q].clone();
                let v: Vec<(T, B)> = v
                    .into_iter()
                    .map(|(x, c)| {
                        let y = self.tab.subst(x, &m, &mut memo);
                        (if q == p { self.tab.sub(if x == e { e } else { y }, e) } else { y }, c)
                    })
                    .collect();
                g.gmap.insert(q, v);
            }
        }
    }
    fn g_edge_lit(&mut self, g: &mut Gate, t: T, c: i128, eq: bool) -> B {
        if self.is_cond(t) || self.tab.tyname(t) == "bool" && !matches!(self.tab.k(t), K::Discr(_)) {
            let b = self.g_cond(g, t);
            return if (c != 0) == eq { b } else { g.b.not(b) };
        }
        let adt = self.discr_adt.get(&t).cloned();
        let mut acc = F;
        for (x, q) in self.gate(g, t).iter().copied().collect::<Vec<_>>() {
            let l = self.g_lit(g, x, c, eq, adt.clone());
            let l = g.b.and(q, l);
            acc = g.b.or(acc, l);
        }
        acc
    }
    fn g_names(&mut self, g: &mut Gate, out: BTreeMap<String, Vec<(Leaf, B)>>, rf: Option<&Value>) -> (Value, Value) {
        // boolean values as conditions
        let mut roots: BTreeMap<String, BTreeMap<String, B>> = BTreeMap::new();
        let mut shown: Vec<T> = vec![];
        for (p, ls) in out {
            let boolish = ls.iter().all(|(l, _)| matches!(l, Leaf::T(t) if matches!(self.tab.k(*t), K::Int(0 | 1))))
                || ls.iter().any(|(l, _)| matches!(l, Leaf::T(t) if self.is_cond(*t) || self.tab.tyname(*t) == "bool"));
            let e = roots.entry(p).or_default();
            for (l, q) in ls {
                let mut put = |g: &mut Gate, s: String, q: B| {
                    if q != F {
                        let x = e.entry(s).or_insert(F);
                        *x = g.b.or(*x, q);
                    }
                };
                match l {
                    Leaf::Tag(s) => put(g, s, q),
                    Leaf::T(t) if boolish && (self.is_cond(t) || self.tab.tyname(t) == "bool" || matches!(self.tab.k(t), K::Int(0 | 1))) => {
                        let c = self.g_cond(g, t);
                        let nc = g.b.not(c);
                        let (a, b) = (g.b.and(q, c), g.b.and(q, nc));
                        put(g, "true".into(), a);
                        put(g, "false".into(), b);
                    }
                    Leaf::T(t) => {
                        shown.push(t);
                        let s = self.show(t);
                        put(g, s, q);
                    }
                }
            }
        }
        // variables by name; loops
        let mut seen: HashSet<T> = HashSet::new();
        let mut names: Vec<Option<(V, bool, Option<(V, bool)>)>> = vec![];
        let mut done_vars = 0;
        loop {
            while done_vars < g.vars.len() {
                let a = g.vars[done_vars].clone();
                let x = self.g_name(&a, &mut shown);
                names.push(x);
                done_vars += 1;
            }
            let mut wl: Vec<T> = std::mem::take(&mut shown);
            if wl.is_empty() {
                break;
            }
            let mut todo = vec![];
            while let Some(t) = wl.pop() {
                let ps: Vec<T> = self.tab.phis[t as usize].iter().copied().collect();
                for q in ps {
                    if seen.insert(q) {
                        todo.push(q);
                        if let Some(m) = self.gmap.as_ref().unwrap().get(&q) {
                            wl.extend(m.iter().copied());
                        }
                    }
                }
            }
            for q in todo {
                let (c, _) = self.cluster(q);
                let nm = format!("loop {}", self.show(q));
                let Some(ls) = g.gmap.get(&q).cloned() else { continue };
                for (v, w) in ls {
                    if c.contains(&v) {
                        continue;
                    }
                    let s = self.show_in(v, &c);
                    let e = roots.entry(nm.clone()).or_default().entry(s).or_insert(F);
                    *e = g.b.or(*e, w);
                }
            }
        }
        let ways: Vec<u32> = (0..g.vars.len() as u32).filter(|v| matches!(g.vars[*v as usize], A::Way(..))).collect();
        if !ways.is_empty() {
            for q in roots.values_mut().flat_map(|m| m.values_mut()) {
                let s = g.b.support(*q);
                for v in &ways {
                    if s.contains(v) {
                        *q = g.b.exists(*q, *v);
                    }
                }
            }
        }
        if g.b.over {
            return (Value::Null, json!("size 3"));
        }
        // ---- second diagram, over names
        let mut b2 = Bdd::new(3_000_000);
        let mut vs: Vec<V> = names.iter().flatten().flat_map(|x| [Some(x.0.clone()), x.2.as_ref().map(|y| y.0.clone())]).flatten().collect();
        let mut rvars: Vec<V> = vec![];
        if let Some(r) = rf {
            for x in r["v"].as_array().into_iter().flatten() {
                rvars.push(V {
                    kind: x[0].as_u64().unwrap_or(0) as u8,
                    name: x[1].as_str().unwrap_or("").into(),
                    k: x[2].as_str().and_then(|s| s.parse().ok()).unwrap_or(0),
                    n: x[3].as_u64().unwrap_or(0) as u32,
                });
            }
        }
        // order: as the reference has it, new ones at their group or at the end
        let mut order: Vec<V> = vec![];
        {
            let have: HashSet<V> = vs.iter().cloned().collect();
            let _ = have;
            let mut uniq = vec![];
            let mut s: HashSet<V> = HashSet::new();
            for v in rvars.iter().chain(vs.iter()) {
                if s.insert(v.clone()) {
                    uniq.push(v.clone());
                }
            }
            let mut groups: Vec<(u8, String)> = vec![];
            let mut by: HashMap<(u8, String), Vec<V>> = HashMap::new();
            for v in uniq {
                let k = (v.kind, v.name.clone());
                if !by.contains_key(&k) {
                    groups.push(k.clone());
                }
                by.entry(k).or_default().push(v);
            }
            if self.cfg.sorted {
                groups.sort();
            }
            for k in groups {
                let mut v = by.remove(&k).unwrap();
                v.sort();
                order.extend(v);
            }
            vs.clear();
        }
        let idx: HashMap<V, u32> = order.iter().enumerate().map(|(i, v)| (v.clone(), i as u32)).collect();
        // atoms of a group exclude each other, or follow from each other: one is
        // asked for after those before it
        let mut at: Vec<B> = vec![F; order.len()];
        let mut i = 0;
        while i < order.len() {
            let mut j = i;
            while j < order.len() && order[j].kind == order[i].kind && order[j].name == order[i].name {
                j += 1;
            }
            let full = order[i].kind == 1 && (i..j).all(|x| order[x].n as usize == j - i);
            let mut acc = if order[i].kind == 1 { TR } else { F };
            for x in i..j {
                let v = b2.var(x as u32);
                at[x] = match order[i].kind {
                    1 if full && x + 1 == j => acc,
                    1 => {
                        let r = b2.and(acc, v);
                        let n = b2.not(v);
                        acc = b2.and(acc, n);
                        r
                    }
                    2 => {
                        acc = b2.or(acc, v);
                        acc
                    }
                    _ => v,
                };
            }
            i = j;
        }
        let mut memo: HashMap<B, B> = HashMap::new();
        let vb: Vec<B> = names
            .iter()
            .map(|x| match x {
                None => F,
                Some((v, pos, more)) => {
                    let a = at[idx[v] as usize];
                    let a = if *pos { a } else { b2.not(a) };
                    match more {
                        None => a,
                        Some((v, pos)) => {
                            let c = at[idx[v] as usize];
                            let c = if *pos { c } else { b2.not(c) };
                            b2.and(a, c)
                        }
                    }
                }
            })
            .collect();
        fn imp(src: &[(u32, B, B)], x: B, vb: &[B], b2: &mut Bdd, memo: &mut HashMap<B, B>) -> B {
            if x < 2 {
                return x;
            }
            if let Some(y) = memo.get(&x) {
                return *y;
            }
            let (v, lo, hi) = src[x as usize];
            let l = imp(src, lo, vb, b2, memo);
            let h = imp(src, hi, vb, b2, memo);
            let r = b2.ite(vb[v as usize], h, l);
            memo.insert(x, r);
            r
        }
        let mut cur: BTreeMap<String, BTreeMap<String, B>> = BTreeMap::new();
        for (p, ls) in &roots {
            for (l, q) in ls {
                let x = imp(&g.b.n, *q, &vb, &mut b2, &mut memo);
                cur.entry(p.clone()).or_default().insert(l.clone(), x);
            }
        }
        let mut diffs: Vec<String> = vec![];
        if let Some(r) = rf {
            let rn: Vec<(u32, B, B)> = r["n"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap() as u32, x[2].as_u64().unwrap() as u32))
                .collect();
            let rvb: Vec<B> = rvars.iter().map(|v| at[idx[v] as usize]).collect();
            let mut src = vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)];
            src.extend(rn);
            let mut memo: HashMap<B, B> = HashMap::new();
            let mut refm: BTreeMap<String, BTreeMap<String, B>> = BTreeMap::new();
            for (p, ls) in r["r"].as_object().into_iter().flatten() {
                for (l, q) in ls.as_object().into_iter().flatten() {
                    let x = imp(&src, q.as_u64().unwrap() as u32, &rvb, &mut b2, &mut memo);
                    refm.entry(p.clone()).or_default().insert(l.clone(), x);
                }
            }
            let keys: BTreeSet<(String, String)> = cur.iter().chain(refm.iter()).flat_map(|(p, ls)| ls.keys().map(move |l| (p.clone(), l.clone()))).collect();
            // what a loop carries only matters where the outcome is not a
            // refusal in both; whether the loop is over does not tell
            let ends: Vec<u32> = order
                .iter()
                .enumerate()
                .filter(|(_, v)| v.kind == 2 && (self.glin.get(&v.name).is_some_and(|l| l.iter().any(|x| counter(&x.0))) || counter(&v.name[1..])))
                .map(|(i, _)| i as u32)
                .collect();
            let mut err = TR;
            for m in [&refm, &cur] {
                // where nothing tells a refusal from an answer it is not one
                let (mut e, mut o) = (F, F);
                for p in ["ret", "ret.value"] {
                    for (l, x) in m.get(p).into_iter().flatten() {
                        let to = if l == "Err" { &mut e } else { &mut o };
                        *to = b2.or(*to, *x);
                    }
                }
                let o = b2.not(o);
                let mut e = b2.and(e, o);
                for v in &ends {
                    e = b2.exists(e, *v);
                }
                err = b2.and(err, e);
            }
            let care = b2.not(err);
            for (p, l) in keys {
                let a = refm.get(&p).and_then(|x| x.get(&l)).copied().unwrap_or(F);
                let c = cur.get(&p).and_then(|x| x.get(&l)).copied().unwrap_or(F);
                if a == c {
                    continue;
                }
                let mut d = b2.xor(a, c);
                if p.starts_with("loop ") {
                    d = b2.and(d, care);
                }
                if d != F && (std::env::var("SA_NOFEAS").is_ok() || self.g_possible(&b2, &order, d)) {
                    // one way to tell them apart
                    let mut x = d;
                    let mut w = vec![];
                    while x > 1 {
                        let (v, lo, hi) = b2.n[x as usize];
                        let pos = lo == F;
                        let vv = &order[v as usize];
                        w.push(format!("{}{}{}", if pos { "" } else { "!" }, vv.name, if vv.kind > 0 { format!("#{}", vv.k) } else { String::new() }));
                        x = if pos { hi } else { lo };
                    }
                    let lone = p.starts_with("loop ") && (!refm.contains_key(&p) || !cur.contains_key(&p));
                    diffs.push(format!("{}{p} = {l} ({}) when {}", if lone { "other " } else { "" }, if a == F { "new" } else if c == F { "gone" } else { "changed" }, w.join(" & ")));
                }
            }
            if b2.over {
                return (Value::Null, json!("size 4"));
            }
            return (Value::Null, json!(diffs));
        }
        // ---- store
        if b2.over {
            return (Value::Null, json!("size 5"));
        }
        let mut map: HashMap<B, u32> = [(F, 0), (TR, 1)].into_iter().collect();
        let mut ns: Vec<Value> = vec![];
        fn dump(b: &Bdd, x: B, map: &mut HashMap<B, u32>, ns: &mut Vec<Value>) -> u32 {
            if let Some(y) = map.get(&x) {
                return *y;
            }
            let (v, lo, hi) = b.n[x as usize];
            let l = dump(b, lo, map, ns);
            let h = dump(b, hi, map, ns);
            ns.push(json!([v, l, h]));
            let i = ns.len() as u32 + 1;
            map.insert(x, i);
            i
        }
        let mut r = Map::new();
        for (p, ls) in &cur {
            let mut o = Map::new();
            for (l, q) in ls {
                if *q == F {
                    continue;
                }
                o.insert(l.clone(), json!(dump(&b2, ls[l], &mut map, &mut ns)));
            }
            if !o.is_empty() {
                r.insert(p.clone(), Value::Object(o));
            }
        }
        if ns.len() > 250_000 {
            return (Value::Null, json!("size 6"));
        }
        (
            json!({"v": order.iter().map(|v| json!([v.kind, v.name, v.k.to_string(), v.n])).collect::<Vec<_>>(), "n": ns, "r": r, "lossy": g.lossy}),
            json!("ok"),
        )
    }
    /// can a difference arise, as far as arithmetic tells
    fn g_possible(&self, b: &Bdd, order: &[V], d: B) -> bool {
        let mut left = 300usize;
        let mut cube: Vec<(u32, bool)> = vec![];
        fn go(e: &Eng, b: &Bdd, order: &[V], x: B, cube: &mut Vec<(u32, bool)>, left: &mut usize) -> bool {
            if x == F {
                return false;
            }
            if x == TR {
                if *left == 0 {
                    return true;
                }
                *left -= 1;
                return e.g_feasible(order, cube);
            }
            let (v, lo, hi) = b.n[x as usize];
            for (y, t) in [(lo, false), (hi, true)] {
                cube.push((v, t));
                let r = go(e, b, order, y, cube, left);
                cube.pop();
                if r {
                    return true;
                }
            }
            false
        }
        go(self, b, order, d, &mut cube, &mut left)
    }
    fn g_feasible(&self, order: &[V], cube: &[(u32, bool)]) -> bool {
        type C = (BTreeMap<String, i128>, i128); // sum <= k
        let mut cs: Vec<C> = vec![];
        let mut rng: BTreeMap<String, (i128, i128)> = BTreeMap::new();
        for (i, (v, t)) in cube.iter().enumerate() {
            let vv = &order[*v as usize];
            if vv.kind != 2 {
                continue;
            }
            let Some(l) = self.glin.get(&vv.name) else { continue };
            for (s, _, r) in l {
                if let Some(r) = r {
                    rng.insert(s.clone(), *r);
                }
            }
            if *t {
                cs.push((l.iter().map(|(s, c, _)| (s.clone(), *c)).collect(), vv.k));
            } else {
                // above it only when above every smaller one
                let first = (0..*v).rev().take_while(|x| order[*x as usize].kind == 2 && order[*x as usize].name == vv.name).last().unwrap_or(*v);
                let all = (first..*v).all(|x| cube[..i].contains(&(x, false)));
                if all {
                    cs.push((l.iter().map(|(s, c, _)| (s.clone(), -*c)).collect(), -vv.k - 1));
                }
            }
        }
        if cs.len() < 2 && rng.is_empty() {
            return true;
        }
        for (s, (lo, hi)) in rng {
            if lo > i64::MIN as i128 * 4 {
                cs.push(([(s.clone(), -1)].into_iter().collect(), -lo));
            }
            if hi < i64::MAX as i128 * 4 {
                cs.push(([(s, 1)].into_iter().collect(), hi));
            }
        }
        let dbg = cs.clone();
        loop {
            if cs.iter().any(|c| c.0.is_empty() && c.1 < 0) {
                if std::env::var("SA_FEAS").is_ok() { eprintln!("INF {dbg:?}"); }
                return false;
            }
            cs.retain(|c| !c.0.is_empty());
            let mut count: BTreeMap<String, (usize, usize)> = BTreeMap::new();
            for c in &cs {
                for (s, k) in &c.0 {
                    let e = count.entry(s.clone()).or_default();
                    if *k > 0 {
                        e.0 += 1
                    } else {
                        e.1 += 1
                    }
                }
            }
            let Some((x, _)) = count.iter().min_by_key(|(_, (a, b))| a * b) else { return true };
            let x = x.clone();
            let (with, mut rest): (Vec<C>, Vec<C>) = cs.into_iter().partition(|c| c.0.contains_key(&x));
            let (up, lo): (Vec<C>, Vec<C>) = with.into_iter().partition(|c| c.0[&x] > 0);
            for u in &up {
                for l in &lo {
                    let (a, c) = (u.0[&x], -l.0[&x]);
                    let mut m: BTreeMap<String, i128> = BTreeMap::new();
                    let mut ok = true;
                    for (s, k) in &u.0 {
                        ok &= k.checked_mul(c).map(|z| *m.entry(s.clone()).or_default() += z).is_some();
                    }
                    for (s, k) in &l.0 {
                        ok &= k.checked_mul(a).map(|z| *m.entry(s.clone()).or_default() += z).is_some();
                    }
                    m.retain(|_, k| *k != 0);
                    let k = u.1.checked_mul(c).zip(l.1.checked_mul(a)).and_then(|(p, q)| p.checked_add(q));
                    match k {
                        Some(k) if ok => rest.push((m, k)),
                        _ => return true,
                    }
                }
            }
            if rest.len() > 300 {
                return true;
            }
            cs = rest;
        }
    }
    /// name of an atom, its sign, and a second conjunct
    fn g_name(&mut self, a: &A, shown: &mut Vec<T>) -> Option<(V, bool, Option<(V, bool)>)> {
        let cap = |s: String| if s.len() > 400 { format!("{}..#{:016x}", s.chars().take(80).collect::<String>(), crate::show::fnv(&s)) } else { s };
        Some(match a {
            A::Is(b, c, adt) => {
                shown.push(*b);
                let n = adt.as_ref().and_then(|n| self.p.adts.get(n)).map(|a| a.vars.len()).unwrap_or(0) as u32;
                let s = cap(self.show(*b));
                // two variants: one variable
                if n == 2 {
                    let lo = adt.as_ref().and_then(|n| self.p.adts.get(n)).map(|a| a.vars[0].discr).unwrap_or(0);
                    return Some((V { kind: 1, name: s, k: lo, n: 2 }, *c == lo, None));
                }
                (V { kind: 1, name: s, k: *c, n }, true, None)
            }
            A::Le(v, k) => {
                let mut parts: Vec<(String, i128)> = vec![];
                for (x, c) in v {
                    shown.push(*x);
                    parts.push((self.show(*x), *c));
                }
                parts.sort();
                let (mut k, mut pos) = (*k, true);
                if parts[0].1 < 0 {
                    for p in parts.iter_mut() {
                        p.1 = -p.1;
                    }
                    k = -k - 1;
                    pos = false;
                }
                let s = parts.iter().map(|(s, c)| if *c == 1 { format!("+{s}") } else if *c == -1 { format!("-{s}") } else { format!("{c:+}*{s}") }).collect::<String>();
                let ranges: Vec<Option<(i128, i128)>> = {
                    let mut m = BTreeMap::new();
                    for (x, _) in v {
                        let len = matches!(self.tab.k(*x), K::Len(_)) || matches!(self.tab.opname(*x), Some(("len", _)));
                        m.insert(self.show(*x), int_range(self.tab.tyname(*x)).or(if len { Some((0, i128::MAX)) } else { None }));
                    }
                    parts.iter().map(|p| m.get(&p.0).copied().flatten()).collect()
                };
                let nm = cap(s);
                self.glin.insert(nm.clone(), parts.into_iter().zip(ranges).map(|((s, c), r)| (s, c, r)).collect());
                (V { kind: 2, name: nm, k, n: 0 }, pos, None)
            }
            A::Lt(x, y) | A::Eq(x, y) => {
                shown.push(*x);
                shown.push(*y);
                let (s, t) = (self.show(*x), self.show(*y));
                let sw = s > t;
                let nm = if sw { format!("{t} ? {s}") } else { format!("{s} ? {t}") };
                let k = match a {
                    A::Eq(..) => 1,
                    _ if sw => 2,
                    _ => 0,
                };
                (V { kind: 1, name: cap(nm), k, n: 3 }, true, None)
            }
            A::Way(..) => return None,
            A::Is1(t) => {
                shown.push(*t);
                (V { kind: 0, name: cap(self.show(*t)), k: 0, n: 0 }, true, None)
            }
        })
    }
}
thread_local! {
    /// large closures: of the reference (digest, form), and as found
    pub static CLOREF: std::cell::RefCell<Vec<(String, Value)>> = Default::default();
    pub static LARGE: std::cell::RefCell<BTreeMap<String, Value>> = Default::default();
    static DIGESTS: std::cell::RefCell<HashMap<(String, String), String>> = Default::default();
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
impl<'p> Eng<'p> {
    /// what a closure does, as a name: its gated form, atoms in the order of their names
    pub fn digest(&self, i: u32) -> String {
        let id = self.clos[i as usize].to_string();
        let key = (id.clone(), CLOREF.with(|c| c.borrow().iter().fold(self.cfg.scope.clone(), |a, x| a + &x.0)));
        if let Some(x) = DIGESTS.with(|d| d.borrow().get(&key).cloned()) {
            return x;
        }
        let Some(&b) = self.p.byid.get(id.as_str()) else { return String::new() };
        if DEPTH.get() > 2 {
            return String::new();
        }
        DEPTH.set(DEPTH.get() + 1);
        let form = |sorted: bool, rf: Option<&Value>| {
            let mut cfg = self.cfg.clone();
            cfg.sorted = sorted;
            cfg.max_nodes = 4000;
            cfg.secs = 60;
            let mut e = Eng::new(self.p, cfg);
            e.enter(b, None);
            e.run();
            if e.aborted { (Value::Null, json!("aborted")) } else { e.gated(rf) }
        };
        let (g, why) = form(true, None);
        let mut r = {
            let t = if g.is_null() { self.p.bodies.iter().filter(|x| *x.id == *id || x.id.starts_with(&format!("{id}::"))).flat_map(|x| x.blocks.iter().flatten()).map(|x| format!("{:?} {:?};", x.s.iter().map(|s| (&s.pl, &s.rv)).collect::<Vec<_>>(), x.t)).collect::<String>() } else { json!([g["v"], g["n"], g["r"]]).to_string() };
            if std::env::var("SA_CLO").is_ok() {
                eprintln!("CLO {id} {t}");
                eprintln!("WHY {id} {why}");
            }
            format!("#{:08x}", crate::show::fnv(&t) as u32)
        };
        if g.is_null() {
            // too large in an order of its own: in that of the reference
            let known = CLOREF.with(|c| c.borrow().clone());
            if std::env::var("SA_CLO").is_ok() {
                for (d, g) in &known {
                    eprintln!("LARGECMP {id} {d} {}", form(false, Some(g)).1);
                }
            }
            let hit = known.iter().find(|(_, g)| form(false, Some(g)).1.as_array().is_some_and(|d| d.iter().all(|x| x.as_str().is_some_and(|x| x.starts_with("other loop")))));
            match hit {
                Some((d, _)) => r = d.clone(),
                None if known.is_empty() => {
                    let (g, why) = form(false, None);
                    if std::env::var("SA_CLO").is_ok() {
                        eprintln!("LARGE {id} {why} {}", g.to_string().len());
                    }
                    if !g.is_null() {
                        LARGE.with(|l| l.borrow_mut().insert(r.clone(), g));
                    }
                }
                None => (),
            }
        }
        if std::env::var("SA_CLO").is_ok() {
            eprintln!("WHY {id} = {r}");
        }
        DEPTH.set(DEPTH.get() - 1);
        DIGESTS.with(|d| d.borrow_mut().insert(key, r.clone()));
        r
    }
}
fn counter(s: &str) -> bool {
    s.starts_with('*') || s.starts_with("cnt{") || s.starts_with("phi{")
}
#[derive(Clone)]
pub enum Leaf {
    T(T),
    Tag(String),
}
