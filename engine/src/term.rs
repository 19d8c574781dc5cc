//! Interned terms and their algebra.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;
pub type S = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Pr {
    F(i32, u32),
    Ix(T),
    Sl(T, T),
    /// through a reference of which it is not known where it points
    D,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Int(i128),
    Bytes(Rc<[u8]>),
    Str(S),
    Sym(S),
    Field(T, i32, u32),
    Ix(T, T),
    Slice(T, T, T),
    Len(T),
    Lin(Rc<[(T, i128)]>, i128),
    Op(S, Rc<[T]>),
    Discr(T),
    Agg(S, u32, Rc<[T]>),
    Clo(u32, Rc<[T]>),
    Ref(u32, Rc<[Pr]>),
    Mut(S, u32, Rc<[T]>),
    Phi(u32, u32),
    Push(T, T),
    Upd(T, Pr, T),
    Fn(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct Lin {
    pub v: Vec<(T, i128)>,
    pub k: i128,
}

impl Lin {
    pub fn c(k: i128) -> Lin {
        Lin { v: vec![], k }
    }
    pub fn add(&self, o: &Lin, m: i128) -> Option<Lin> {
        let mut r = Vec::with_capacity(self.v.len() + o.v.len());
        let (mut i, mut j) = (0, 0);
        while i < self.v.len() || j < o.v.len() {
            if j >= o.v.len() || (i < self.v.len() && self.v[i].0 < o.v[j].0) {
                r.push(self.v[i]);
                i += 1;
            } else if i >= self.v.len() || o.v[j].0 < self.v[i].0 {
                r.push((o.v[j].0, o.v[j].1.checked_mul(m)?));
                j += 1;
            } else {
                let c = self.v[i].1.checked_add(o.v[j].1.checked_mul(m)?)?;
                if c != 0 {
                    r.push((self.v[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Lin { v: r, k: self.k.checked_add(o.k.checked_mul(m)?)? })
    }
    pub fn scale(&self, m: i128) -> Option<Lin> {
        Lin::c(0).add(self, m)
    }
    pub fn norm(mut self) -> Lin {
        let mut g: i128 = 0;
        for (_, c) in &self.v {
            g = gcd(g, c.abs());
        }
        if g > 1 {
            for x in self.v.iter_mut() {
                x.1 /= g;
            }
            // sum + k <= 0  ->  sum/g <= floor(-k/g)
            self.k = -((-self.k).div_euclid(g));
        }
        self
    }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

#[derive(Default)]
pub struct Tab {
    pub ks: Vec<K>,
    map: HashMap<K, T>,
    pub strs: Vec<Rc<str>>,
    smap: HashMap<Rc<str>, S>,
    pub ty: Vec<S>, // 0 = unknown
    pub phis: Vec<Rc<[T]>>, // per term: the phi terms it contains (sorted)
}

pub fn int_range(ty: &str) -> Option<(i128, i128)> {
    Some(match ty {
        "bool" => (0, 1),
        "u8" => (0, 255),
        "u16" => (0, 65535),
        "u32" => (0, u32::MAX as i128),
        "u64" | "usize" => (0, u64::MAX as i128),
        "u128" => (0, i128::MAX),
        "i8" => (-128, 127),
        "i16" => (-32768, 32767),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "i64" | "isize" => (i64::MIN as i128, i64::MAX as i128),
        "i128" => (i128::MIN, i128::MAX),
        "char" => (0, 0x10ffff),
        _ => return None,
    })
}
pub fn array_len(ty: &str) -> Option<i128> {
    let t = ty.trim_start_matches('&').trim_start_matches("mut ");
    if !t.starts_with('[') {
        return None;
    }
    let i = t.rfind("; ")?;
    t[i + 2..].trim_end_matches(']').parse().ok()
}

impl Tab {
    pub fn new() -> Tab {
        let mut t = Tab::default();
        t.s("");
        t
    }
    pub fn s(&mut self, s: &str) -> S {
        if let Some(x) = self.smap.get(s) {
            return *x;
        }
        let r: Rc<str> = s.into();
        self.strs.push(r.clone());
        self.smap.insert(r, self.strs.len() as u32 - 1);
        self.strs.len() as u32 - 1
    }
    pub fn str(&self, s: S) -> &str {
        &self.strs[s as usize]
    }
    pub fn k(&self, t: T) -> &K {
        &self.ks[t as usize]
    }
    pub fn mk(&mut self, k: K) -> T {
        if let Some(x) = self.map.get(&k) {
            return *x;
        }
        let id = self.ks.len() as u32;
        let mut ph: Vec<T> = vec![];
        {
            let mut add = |t: T| ph.extend(self.phis[t as usize].iter().copied());
            match &k {
                K::Field(a, ..) | K::Len(a) | K::Discr(a) => add(*a),
                K::Ix(a, b) | K::Push(a, b) => {
                    add(*a);
                    add(*b)
                }
                K::Slice(a, b, c) => {
                    add(*a);
                    add(*b);
                    add(*c)
                }
                K::Upd(a, p, b) => {
                    add(*a);
                    add(*b);
                    match p {
                        Pr::Ix(i) => add(*i),
                        Pr::Sl(x, y) => {
                            add(*x);
                            add(*y)
                        }
                        _ => {}
                    }
                }
                K::Lin(v, _) => v.iter().for_each(|x| add(x.0)),
                K::Op(_, v) | K::Agg(_, _, v) | K::Clo(_, v) | K::Mut(_, _, v) => v.iter().for_each(|x| add(*x)),
                K::Ref(_, p) => {
                    for x in p.iter() {
                        match x {
                            Pr::Ix(i) => add(*i),
                            Pr::Sl(x, y) => {
                                add(*x);
                                add(*y)
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        if let K::Phi(..) = k {
            ph.push(id);
        }
        ph.sort();
        ph.dedup();
        self.ks.push(k.clone());
        self.map.insert(k, id);
        self.ty.push(0);
        self.phis.push(ph.into());
        id
    }
    pub fn int(&mut self, i: i128) -> T {
        self.mk(K::Int(i))
    }
    pub fn as_int(&self, t: T) -> Option<i128> {
        match self.k(t) {
            K::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn tyname(&self, t: T) -> &str {
        self.str(self.ty[t as usize])
    }
    pub fn set_ty(&mut self, t: T, ty: &str) {
        if self.ty[t as usize] != 0 {
            return;
        }
        if int_range(ty).is_none() && !ty.contains("::") && !ty.contains('[') || ty.starts_with('<') {
            return;
        }
        let s = self.s(ty);
        self.ty[t as usize] = s;
    }
    pub fn op(&mut self, n: &str, a: &[T]) -> T {
        let s = self.s(n);
        self.mk(K::Op(s, a.into()))
    }
    pub fn opname(&self, t: T) -> Option<(&str, &[T])> {
        match self.k(t) {
            K::Op(s, a) => Some((self.str(*s), a)),
            _ => None,
        }
    }
    pub fn agg(&mut self, n: &str, v: u32, a: &[T]) -> T {
        let s = self.s(n);
        self.mk(K::Agg(s, v, a.into()))
    }
    pub fn tuple(&mut self, a: &[T]) -> T {
        self.agg("tuple", 0, a)
    }
    pub fn some(&mut self, t: T) -> T {
        self.agg("core::option::Option", 1, &[t])
    }
    pub fn none(&mut self) -> T {
        self.agg("core::option::Option", 0, &[])
    }
    pub fn ok(&mut self, t: T) -> T {
        self.agg("core::result::Result", 0, &[t])
    }
    pub fn err(&mut self, t: T) -> T {
        self.agg("core::result::Result", 1, &[t])
    }
    pub fn unit(&mut self) -> T {
        self.tuple(&[])
    }
    pub fn lin(&self, t: T) -> Lin {
        match self.k(t) {
            K::Int(i) => Lin::c(*i),
            K::Lin(v, k) => Lin { v: v.to_vec(), k: *k },
            _ => Lin { v: vec![(t, 1)], k: 0 },
        }
    }
    pub fn from_lin(&mut self, l: &Lin) -> T {
        if l.v.is_empty() {
            return self.int(l.k);
        }
        if l.k == 0 && l.v.len() == 1 && l.v[0].1 == 1 {
            return l.v[0].0;
        }
        self.mk(K::Lin(l.v.clone().into(), l.k))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        match self.lin(a).add(&self.lin(b), 1) {
            Some(l) => self.from_lin(&l),
            None => self.op("add", &[a, b]),
        }
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        match self.lin(a).add(&self.lin(b), -1) {
            Some(l) => self.from_lin(&l),
            None => self.op("sub", &[a, b]),
        }
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let (a, b) = if self.as_int(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.as_int(b) {
            if let Some(l) = self.lin(a).scale(c) {
                return self.from_lin(&l);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.op("mul", &[a, b])
    }
    pub fn le0(&mut self, l: &Lin) -> T {
        let l = l.clone().norm();
        if l.v.is_empty() {
            return self.int((l.k <= 0) as i128);
        }
        let t = self.mk(K::Lin(l.v.clone().into(), l.k));
        self.op("le0", &[t])
    }
    pub fn eq0(&mut self, l: &Lin) -> T {
        if l.v.is_empty() {
            return self.int((l.k == 0) as i128);
        }
        let mut l = l.clone();
        if l.v[0].1 < 0 {
            l = l.scale(-1).unwrap_or(l);
        }
        let mut g = 0;
        for (_, c) in &l.v {
            g = gcd(g, c.abs());
        }
        if g > 1 && l.k % g == 0 {
            for x in l.v.iter_mut() {
                x.1 /= g;
            }
            l.k /= g;
        } else if g > 1 {
            return self.int(0);
        }
        let t = self.mk(K::Lin(l.v.clone().into(), l.k));
        self.op("eq0", &[t])
    }
    pub fn raw_lin(&self, t: T) -> Lin {
        match self.k(t) {
            K::Lin(v, k) => Lin { v: v.to_vec(), k: *k },
            K::Int(i) => Lin::c(*i),
            _ => Lin { v: vec![(t, 1)], k: 0 },
        }
    }
    pub fn not(&mut self, t: T) -> T {
        if let Some(i) = self.as_int(t) {
            return self.int((i == 0) as i128);
        }
        if let Some((n, a)) = self.opname(t) {
            if n == "not" {
                return a[0];
            }
            if n == "le0" {
                let l = self.raw_lin(a[0]);
                if let Some(mut m) = l.scale(-1) {
                    m.k += 1;
                    return self.le0(&m);
                }
            }
        }
        self.op("not", &[t])
    }
    pub fn len(&mut self, t: T) -> T {
        match self.k(t).clone() {
            K::Agg(_, _, a) => {
                let n = a.len() as i128;
                return self.int(n);
            }
            K::Bytes(b) => return self.int(b.len() as i128),
            K::Str(s) => {
                let n = self.str(s).len() as i128;
                return self.int(n);
            }
            K::Push(b, _) => {
                let l = self.len(b);
                let one = self.int(1);
                return self.add(l, one);
            }
            K::Slice(_, f, to) => return self.sub(to, f),
            K::Upd(b, Pr::Ix(_), _) | K::Upd(b, Pr::Sl(..), _) => return self.len(b),
            K::Op(n, a) => {
                let n = self.str(n).to_string();
                if n == "to_be" || n == "to_le" {
                    if let Some((_, hi)) = int_range(self.tyname(a[0])) {
                        let bytes = match hi {
                            255 => 1,
                            65535 => 2,
                            4294967295 => 4,
                            _ => 8,
                        };
                        return self.int(bytes);
                    }
                }
                if n == "concat" {
                    let mut r = self.int(0);
                    for x in a.iter() {
                        let l = self.len(*x);
                        r = self.add(r, l);
                    }
                    return r;
                }
                if n == "repeat" {
                    return a[1];
                }
                if (n == "values" || n == "keys") && a.len() == 1 {
                    return self.len(a[0]);
                }
            }
            _ => {}
        }
        if let Some(n) = array_len(self.tyname(t)) {
            return self.int(n);
        }
        let r = self.mk(K::Len(t));
        self.set_ty(r, "usize");
        r
    }
    pub fn field(&mut self, b: T, var: i32, i: u32) -> T {
        match self.k(b).clone() {
            K::Agg(_, v, a) => {
                if (var < 0 || v == var as u32) && (i as usize) < a.len() {
                    return a[i as usize];
                }
            }
            K::Clo(_, a) => {
                if (i as usize) < a.len() {
                    return a[i as usize];
                }
            }
            K::Upd(b2, p, v) => {
                if p == Pr::F(var, i) {
                    return v;
                }
                return self.field(b2, var, i);
            }
            _ => {}
        }
        self.mk(K::Field(b, var, i))
    }
    pub fn ix(&mut self, b: T, i: T) -> T {
        if let Some((n @ ("values" | "keys"), a)) = self.opname(b) {
            if a.len() == 1 {
                let j = (n == "values") as u32;
                let m = a[0];
                let e = self.ix(m, i);
                return self.field(e, -1, j);
            }
        }
        match self.k(b).clone() {
            K::Agg(_, _, a) => {
                if let Some(n) = self.as_int(i) {
                    if n >= 0 && (n as usize) < a.len() {
                        return a[n as usize];
                    }
                }
            }
            K::Bytes(v) => {
                if let Some(n) = self.as_int(i) {
                    if n >= 0 && (n as usize) < v.len() {
                        return self.int(v[n as usize] as i128);
                    }
                }
            }
            K::Push(b2, e) => {
                let l = self.len(b2);
                if l == i {
                    return e;
                }
                if let (Some(a), Some(c)) = (self.as_int(l), self.as_int(i)) {
                    if c < a {
                        return self.ix(b2, i);
                    }
                }
            }
            K::Slice(b2, f, _) => {
                let j = self.add(f, i);
                return self.ix(b2, j);
            }
            K::Op(n, a) if self.str(n) == "repeat" => return a[0],
            K::Upd(b2, Pr::Ix(j), v) => {
                if j == i {
                    return v;
                }
                let d = self.sub(i, j);
                if self.as_int(d).is_some() {
                    return self.ix(b2, i);
                }
            }
            _ => {}
        }
        self.mk(K::Ix(b, i))
    }
    pub fn slice(&mut self, b: T, f: T, t: T) -> T {
        if self.as_int(f) == Some(0) && self.len(b) == t {
            return b;
        }
        match self.k(b).clone() {
            K::Slice(b2, f2, _) => {
                let nf = self.add(f2, f);
                let nt = self.add(f2, t);
                return self.slice(b2, nf, nt);
            }
            K::Agg(n, 0, a) => {
                if let (Some(x), Some(y)) = (self.as_int(f), self.as_int(t)) {
                    if 0 <= x && x <= y && y as usize <= a.len() {
                        return self.mk(K::Agg(n, 0, a[x as usize..y as usize].into()));
                    }
                }
            }
            K::Bytes(v) => {
                if let (Some(x), Some(y)) = (self.as_int(f), self.as_int(t)) {
                    if 0 <= x && x <= y && y as usize <= v.len() {
                        return self.mk(K::Bytes(v[x as usize..y as usize].into()));
                    }
                }
            }
            _ => {}
        }
        self.mk(K::Slice(b, f, t))
    }
    pub fn proj(&mut self, v: T, p: Pr) -> T {
        match p {
            Pr::F(a, b) => self.field(v, a, b),
            Pr::Ix(i) => self.ix(v, i),
            Pr::Sl(f, t) => self.slice(v, f, t),
            Pr::D => v,
        }
    }
    pub fn upd(&mut self, b: T, p: Pr, v: T) -> T {
        if p == Pr::D {
            return v;
        }
        match (self.k(b).clone(), p) {
            (K::Agg(n, vr, a), Pr::F(var, i)) if (var < 0 || vr == var as u32) && (i as usize) < a.len() => {
                let mut a = a.to_vec();
                a[i as usize] = v;
                return self.mk(K::Agg(n, vr, a.into()));
            }
            (K::Clo(n, a), Pr::F(_, i)) if (i as usize) < a.len() => {
                let mut a = a.to_vec();
                a[i as usize] = v;
                return self.mk(K::Clo(n, a.into()));
            }
            (K::Agg(n, vr, a), Pr::Ix(i)) => {
                if let Some(i) = self.as_int(i) {
                    if i >= 0 && (i as usize) < a.len() {
                        let mut a = a.to_vec();
                        a[i as usize] = v;
                        return self.mk(K::Agg(n, vr, a.into()));
                    }
                }
            }
            (K::Upd(b2, q, _), _) if q == p => return self.upd(b2, p, v),
            (K::Upd(b2, q, w), Pr::F(..)) if matches!(q, Pr::F(..)) && q > p => {
                // canonical order of independent field updates
                let x = self.upd(b2, p, v);
                return self.mk(K::Upd(x, q, w));
            }
            _ => {}
        }
        if self.proj(b, p) == v {
            return b;
        }
        if let Pr::Ix(i) = p {
            // v[len - 1] = x is pop, push
            let l = self.len(b);
            if self.as_int(l).is_none() {
                let one = self.int(1);
                let l1 = self.sub(l, one);
                if l1 == i {
                    let z = self.int(0);
                    let f = match self.k(b).clone() {
                        K::Push(f, _) => f,
                        _ => self.slice(b, z, l1),
                    };
                    return self.mk(K::Push(f, v));
                }
            }
        }
        self.mk(K::Upd(b, p, v))
    }
    pub fn discr_idx(&self, t: T) -> Option<u32> {
        match self.k(t) {
            K::Agg(_, v, _) => Some(*v),
            _ => None,
        }
    }
    /// replace terms according to `m`
    pub fn subst(&mut self, t: T, m: &HashMap<T, T>, memo: &mut HashMap<T, T>) -> T {
        if let Some(x) = m.get(&t) {
            return *x;
        }
        if let Some(x) = memo.get(&t) {
            return *x;
        }
        let k = self.k(t).clone();
        let r = match k {
            K::Int(_) | K::Bytes(_) | K::Str(_) | K::Sym(_) | K::Phi(..) | K::Fn(_) => t,
            K::Field(a, v, i) => {
                let a2 = self.subst(a, m, memo);
                if a2 == a {
                    t
                } else {
                    self.field(a2, v, i)
                }
            }
            K::Ix(a, i) => {
                let a2 = self.subst(a, m, memo);
                let i2 = self.subst(i, m, memo);
                self.ix(a2, i2)
            }
            K::Slice(a, f, to) => {
                let a2 = self.subst(a, m, memo);
                let f2 = self.subst(f, m, memo);
                let t2 = self.subst(to, m, memo);
                self.slice(a2, f2, t2)
            }
            K::Len(a) => {
                let a2 = self.subst(a, m, memo);
                if a2 == a {
                    t
                } else {
                    self.len(a2)
                }
            }
            K::Lin(v, k) => {
                let mut acc = Lin::c(k);
                let mut ok = true;
                for (x, c) in v.iter() {
                    let y = self.subst(*x, m, memo);
                    let l = self.lin(y);
                    match acc.add(&l, *c) {
                        Some(a) => acc = a,
                        None => ok = false,
                    }
                }
                if ok {
                    self.from_lin(&acc)
                } else {
                    t
                }
            }
            K::Op(n, a) => {
                let b: Vec<T> = a.iter().map(|x| self.subst(*x, m, memo)).collect();
                if b[..] == a[..] {
                    t
                } else {
                    let name = self.str(n).to_string();
                    match name.as_str() {
                        "le0" => {
                            let l = self.lin(b[0]);
                            self.le0(&l)
                        }
                        "eq0" => {
                            let l = self.lin(b[0]);
                            self.eq0(&l)
                        }
                        "not" => self.not(b[0]),
                        _ => self.mk(K::Op(n, b.into())),
                    }
                }
            }
            K::Discr(a) => {
                let a2 = self.subst(a, m, memo);
                if a2 == a {
                    t
                } else {
                    self.mk(K::Discr(a2))
                }
            }
            K::Agg(n, v, a) => {
                let b: Vec<T> = a.iter().map(|x| self.subst(*x, m, memo)).collect();
                self.mk(K::Agg(n, v, b.into()))
            }
            K::Clo(n, a) => {
                let b: Vec<T> = a.iter().map(|x| self.subst(*x, m, memo)).collect();
                self.mk(K::Clo(n, b.into()))
            }
            K::Mut(n, i, a) => {
                let b: Vec<T> = a.iter().map(|x| self.subst(*x, m, memo)).collect();
                self.mk(K::Mut(n, i, b.into()))
            }
            K::Ref(..) => t,
            K::Push(a, b) => {
                let a2 = self.subst(a, m, memo);
                let b2 = self.subst(b, m, memo);
                self.mk(K::Push(a2, b2))
            }
            K::Upd(a, p, b) => {
                let a2 = self.subst(a, m, memo);
                let b2 = self.subst(b, m, memo);
                let p2 = match p {
                    Pr::Ix(i) => Pr::Ix(self.subst(i, m, memo)),
                    p => p,
                };
                self.upd(a2, p2, b2)
            }
        };
        if self.ty[r as usize] == 0 {
            self.ty[r as usize] = self.ty[t as usize];
        }
        memo.insert(t, r);
        r
    }
}
