//! Abstract state: values of places + facts, and the linear entailment test.
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Default, PartialEq)]
pub struct St {
    pub vals: Rc<BTreeMap<u32, T>>,
    pub eqc: Rc<BTreeMap<T, i128>>,
    pub ne: Rc<BTreeSet<(T, i128)>>,
    pub lin: Rc<BTreeSet<Rc<Lin>>>,
    /// recording pass only: conditions decided since the node was entered
    pub log: Rc<Vec<(T, i128, bool)>>,
}

pub const ISIZE_MAX: i128 = i64::MAX as i128;

pub struct Ent<'a> {
    pub tab: &'a mut Tab,
    pub st: &'a St,
    pub budget: usize,
    pub idx: BTreeMap<T, Vec<Rc<Lin>>>,
    pub ivl: BTreeMap<T, (i128, i128)>,
    pub busy: BTreeSet<T>,
}

impl<'a> Ent<'a> {
    pub fn new(tab: &'a mut Tab, st: &'a St) -> Ent<'a> {
        Ent { tab, st, budget: 400, idx: BTreeMap::new(), ivl: BTreeMap::new(), busy: BTreeSet::new() }
    }
    fn facts(&mut self, v: T) -> Vec<Rc<Lin>> {
        if let Some(x) = self.idx.get(&v) {
            return x.clone();
        }
        let mut r: Vec<Rc<Lin>> =
            self.st.lin.iter().filter(|l| l.v.iter().any(|x| x.0 == v)).cloned().collect();
        r.extend(self.builtin(v).into_iter().map(Rc::new));
        r.sort_by_key(|l| l.v.len());
        self.idx.insert(v, r.clone());
        r
    }
    fn le(&mut self, a: T, b: T, k: i128) -> Option<Lin> {
        // a - b + k <= 0
        let mut l = self.tab.lin(a).add(&self.tab.lin(b), -1)?;
        l.k += k;
        Some(l)
    }
    fn builtin(&mut self, v: T) -> Vec<Lin> {
        let mut r = vec![];
        let k = self.tab.k(v).clone();
        if let K::Op(n, a) = &k {
            let n = self.tab.str(*n).to_string();
            match n.as_str() {
                "min" => {
                    r.extend(self.le(v, a[0], 0));
                    r.extend(self.le(v, a[1], 0));
                }
                "max" => {
                    r.extend(self.le(a[0], v, 0));
                    r.extend(self.le(a[1], v, 0));
                }
                "sat_sub" => {
                    r.extend(self.le(v, a[0], 0));
                    if let Some(l) = self.tab.lin(a[0]).add(&self.tab.lin(a[1]), -1) {
                        r.extend(l.add(&Lin { v: vec![(v, 1)], k: 0 }, -1));
                    }
                }
                "sat_add" => {
                    // v <= a + b
                    if let Some(l) = self.tab.lin(a[0]).add(&self.tab.lin(a[1]), 1) {
                        r.extend(Lin { v: vec![(v, 1)], k: 0 }.add(&l, -1));
                    }
                    r.extend(self.le(a[0], v, 0));
                    r.extend(self.le(a[1], v, 0));
                }
                "div" | "shr" => {
                    let c = self.tab.as_int(a[1]).map(|c| if n == "shr" { if (0..64).contains(&c) { 1i128 << c } else { 0 } } else { c });
                    if let Some(c) = c {
                        if c > 0 {
                            // c*v <= a ; a <= c*v + c-1
                            let lv = Lin { v: vec![(v, c)], k: 0 };
                            r.extend(lv.add(&self.tab.lin(a[0]), -1));
                            if let Some(mut l) = self.tab.lin(a[0]).add(&lv, -1) {
                                l.k -= c - 1;
                                r.push(l);
                            }
                        }
                    } else {
                        r.extend(self.le(v, a[0], 0));
                    }
                }
                "rem" => {
                    r.extend(self.le(v, a[0], 0));
                    r.extend(self.le(v, a[1], 1));
                }
                "band" => {
                    r.extend(self.le(v, a[0], 0));
                    r.extend(self.le(v, a[1], 0));
                }
                _ if n.starts_with("cast:") && self.ival(a[0]).0 >= 0 => {
                    r.extend(self.le(v, a[0], 0));
                }
                _ => {}
            }
        }
        r
    }
    pub fn ival(&mut self, t: T) -> (i128, i128) {
        if let Some(x) = self.ivl.get(&t) {
            return *x;
        }
        if let Some(c) = self.st.eqc.get(&t) {
            return (*c, *c);
        }
        if self.busy.contains(&t) || self.busy.len() > 24 {
            return int_range(self.tab.tyname(t)).unwrap_or((i128::MIN / 4, i128::MAX / 4));
        }
        self.busy.insert(t);
        let k = self.tab.k(t).clone();
        // (a sum may be shared between a checked and an unchecked use: its type says nothing)
        let rg = if matches!(k, K::Lin(..)) { None } else { int_range(self.tab.tyname(t)) };
        let (mut lo, mut hi) = rg.unwrap_or((i128::MIN / 4, i128::MAX / 4));
        let mut lim = |l: i128, h: i128, lo: &mut i128, hi: &mut i128| {
            if l > *lo {
                *lo = l
            }
            if h < *hi {
                *hi = h
            }
        };
        match &k {
            K::Int(i) => lim(*i, *i, &mut lo, &mut hi),
            K::Len(_) => lim(0, ISIZE_MAX, &mut lo, &mut hi),
            K::Lin(v, k) => {
                let (mut l, mut h) = (*k, *k);
                for (x, c) in v.iter() {
                    let (a, b) = self.ival(*x);
                    let (p, q) = if *c > 0 { (a, b) } else { (b, a) };
                    l = l.saturating_add(p.saturating_mul(*c)).max(i128::MIN / 4);
                    h = h.saturating_add(q.saturating_mul(*c)).min(i128::MAX / 4);
                }
                lim(l, h, &mut lo, &mut hi);
            }
            K::Op(n, a) => {
                let n = self.tab.str(*n).to_string();
                let iv: Vec<(i128, i128)> = if matches!(
                    n.as_str(),
                    "min" | "max" | "sat_sub" | "sat_add" | "div" | "rem" | "shr" | "shl" | "band" | "bor" | "bxor" | "mul" | "add"
                ) || n.starts_with("cast:")
                {
                    a.iter().map(|x| self.ival(*x)).collect()
                } else {
                    vec![]
                };
                match n.as_str() {
                    "min" => lim(iv[0].0.min(iv[1].0), iv[0].1.min(iv[1].1), &mut lo, &mut hi),
                    "max" => lim(iv[0].0.max(iv[1].0), iv[0].1.max(iv[1].1), &mut lo, &mut hi),
                    "sat_sub" => lim(iv[0].0.saturating_sub(iv[1].1).max(0), iv[0].1.saturating_sub(iv[1].0).max(0), &mut lo, &mut hi),
                    "sat_add" | "add" => lim(iv[0].0.saturating_add(iv[1].0), iv[0].1.saturating_add(iv[1].1), &mut lo, &mut hi),
                    "mul" if iv[0].0 >= 0 && iv[1].0 >= 0 => {
                        lim(iv[0].0.saturating_mul(iv[1].0), iv[0].1.saturating_mul(iv[1].1).min(i128::MAX / 4), &mut lo, &mut hi)
                    }
                    "div" if iv[0].0 >= 0 && iv[1].0 > 0 => lim(iv[0].0 / iv[1].1, iv[0].1 / iv[1].0, &mut lo, &mut hi),
                    "div" if iv[0].0 >= 0 && iv[1].0 >= 0 => lim(0, iv[0].1, &mut lo, &mut hi),
                    "rem" if iv[0].0 >= 0 && iv[1].1 > 0 => lim(0, iv[0].1.min(iv[1].1 - 1), &mut lo, &mut hi),
                    "shr" if iv[0].0 >= 0 && iv[1].0 >= 0 && iv[1].0 < 127 => lim(0, iv[0].1 >> iv[1].0, &mut lo, &mut hi),
                    "shl" if iv[0].0 >= 0 && iv[1].0 >= 0 && iv[1].1 < 64 && iv[0].1 < (1 << 60) => {
                        lim(iv[0].0 << iv[1].0, iv[0].1 << iv[1].1, &mut lo, &mut hi)
                    }
                    "band" if iv[0].0 >= 0 && iv[1].0 >= 0 => lim(0, iv[0].1.min(iv[1].1), &mut lo, &mut hi),
                    "bor" | "bxor" if iv[0].0 >= 0 && iv[1].0 >= 0 => lim(0, iv[0].1.saturating_add(iv[1].1), &mut lo, &mut hi),
                    "popcnt" | "clz" | "ctz" | "ctone" => lim(0, 128, &mut lo, &mut hi),
                    _ if n.starts_with("cast:") => {
                        let (l, h) = iv[0];
                        if l >= lo && h <= hi {
                            lim(l, h, &mut lo, &mut hi);
                        }
                        if let Some(r) = int_range(&n[5..]) {
                            lim(r.0, r.1, &mut lo, &mut hi);
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        let fs: Vec<Rc<Lin>> = self
            .st
            .lin
            .iter()
            .filter(|l| l.v.len() == 1 && l.v[0].0 == t)
            .cloned()
            .collect();
        for f in fs {
            let c = f.v[0].1;
            if c > 0 {
                hi = hi.min((-f.k).div_euclid(c));
            } else {
                // c t + k <= 0, c<0: t >= k/(-c) rounded up
                let d = -c;
                lo = lo.max(-((-f.k).div_euclid(d)));
            }
        }
        for (x, v) in self.st.ne.range((t, i128::MIN)..=(t, i128::MAX)) {
            let _ = x;
            if *v == lo {
                lo += 1;
            }
            if *v == hi {
                hi -= 1;
            }
        }
        self.busy.remove(&t);
        if self.busy.is_empty() {
            self.ivl.insert(t, (lo, hi));
        }
        (lo, hi)
    }
    fn simp(&mut self, l: &Lin) -> Option<Lin> {
        let mut r = Lin::c(l.k);
        for (x, c) in &l.v {
            match self.st.eqc.get(x) {
                Some(v) => r.k = r.k.checked_add(v.checked_mul(*c)?)?,
                None => r.v.push((*x, *c)),
            }
        }
        Some(r)
    }
    fn ub(&mut self, l: &Lin) -> i128 {
        let mut h = l.k;
        for (x, c) in &l.v {
            let (a, b) = self.ival(*x);
            let e = if *c > 0 { b } else { a };
            if e.abs() >= i128::MAX / 8 {
                return i128::MAX / 4;
            }
            h = h.saturating_add(e.saturating_mul(*c));
        }
        h
    }
    /// l <= 0 ?
    pub fn entails(&mut self, l: &Lin) -> bool {
        let Some(l) = self.simp(l) else { return false };
        let mut seen = BTreeSet::new();
        for d in [1, 3, 5] {
            if self.go(&l, d, &mut seen) {
                return true;
            }
        }
        false
    }
    fn go(&mut self, l: &Lin, depth: usize, seen: &mut BTreeSet<(Lin, usize)>) -> bool {
        if l.v.is_empty() {
            return l.k <= 0;
        }
        if self.ub(l) <= 0 {
            return true;
        }
        if depth == 0 || self.budget == 0 || l.v.len() > 6 {
            return false;
        }
        if !seen.insert((l.clone(), depth)) {
            return false;
        }
        self.budget -= 1;
        for (v, c) in l.v.clone() {
            for f in self.facts(v) {
                let Some(a) = f.v.iter().find(|x| x.0 == v).map(|x| x.1) else { continue };
                if (a > 0) != (c > 0) {
                    continue;
                }
                let Some(s) = l.scale(a.abs()) else { continue };
                let Some(f2) = self.simp(&f) else { continue };
                let Some(n) = s.add(&f2, -c.abs()) else { continue };
                let n = if n.v.iter().any(|x| x.0 == v) { continue } else { n };
                if self.go(&n, depth - 1, seen) {
                    return true;
                }
            }
        }
        false
    }
}
