//! Printing of terms with canonical, position-independent names: the same
//! value computed by a differently written piece of code prints the same.
use crate::exec::*;
use crate::load::norm;
use crate::term::*;
use std::collections::BTreeSet;

const CLOSED: usize = usize::MAX;
const LIMIT: usize = 360;
const NEST: usize = 3;

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn cap(s: String) -> String {
    if s.len() > LIMIT {
        let h = fnv(&s) as u32;
        let mut n = 60;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}..#{h:08x}", &s[..n])
    } else {
        s
    }
}

impl<'p> Eng<'p> {
    pub fn show(&mut self, t: T) -> String {
        if self.recording || self.done {
            if let Some(s) = self.canon.get(&t) {
                return s.to_string();
            }
        }
        self.sh(t, &mut vec![], 40).0
    }
    fn fname(&self, base: T, var: i32, i: u32) -> String {
        let ty = match self.tab.tyname(base) {
            "" => self.struct_of(base).map(|s| s.to_string()).unwrap_or_default(),
            t => t.to_string(),
        };
        let n = ty.split('<').next().unwrap_or("");
        if let Some(a) = self.p.adts.get(n) {
            let v = if var >= 0 { var as usize } else { 0 };
            if let Some(v) = a.vars.get(v) {
                if let Some((f, _)) = v.fields.get(i as usize) {
                    return f.to_string();
                }
            }
        }
        format!("{i}")
    }
    fn shs(&mut self, a: &[T], o: &mut Vec<BTreeSet<T>>, d: usize) -> (Vec<String>, usize) {
        let mut m = CLOSED;
        let mut v = vec![];
        for x in a {
            let (s, l) = self.sh(*x, o, d);
            m = m.min(l);
            v.push(cap(s));
        }
        (v, m)
    }
    fn proj(&mut self, base: Option<T>, p: &Pr, o: &mut Vec<BTreeSet<T>>, d: usize) -> (String, usize) {
        match p {
            Pr::F(v, i) => match base {
                Some(b) if *v > 0 => (format!("@{v}.{}", self.fname(b, *v, *i)), CLOSED),
                Some(b) => (format!(".{}", self.fname(b, *v, *i)), CLOSED),
                None => (format!(".{i}"), CLOSED),
            },
            Pr::Ix(i) => {
                let (s, m) = self.sh(*i, o, d);
                (format!("[{s}]"), m)
            }
            Pr::Sl(f, e) => {
                let (v, m) = self.shs(&[*f, *e], o, d);
                (format!("[{}..{}]", v[0], v[1]), m)
            }
            Pr::D => (String::new(), CLOSED),
        }
    }
    /// a saturating sum of unsigned numbers
    fn is_sat(&self, t: T) -> bool {
        matches!(self.tab.k(t), K::Op(q, b) if b.len() == 2 && &*self.tab.str(*q) == "sat_add") && self.tab.tyname(t).starts_with('u')
    }
    /// sums of unsigned numbers, in any order
    fn sh_sum(&mut self, t: T, o: &mut Vec<BTreeSet<T>>, d: usize) -> (String, usize) {
        let mut a = vec![t];
        let mut sum = 0i128;
        let mut i = 0;
        while i < a.len() {
            match self.tab.k(a[i]).clone() {
                K::Op(_, b) if self.is_sat(a[i]) && a.len() < 60 => {
                    a.splice(i..i + 1, b.iter().copied());
                }
                K::Lin(v, k) if k >= 0 && v.iter().all(|x| x.1 == 1) && a.len() < 60 => {
                    sum += k;
                    a.splice(i..i + 1, v.iter().map(|x| x.0));
                }
                K::Int(k) => {
                    sum += k;
                    a.remove(i);
                }
                _ => i += 1,
            }
        }
        let (mut xs, m) = self.shs(&a, o, d);
        if sum != 0 {
            xs.push(sum.to_string());
        }
        xs.sort();
        (if xs.len() == 1 { xs.remove(0) } else { format!("sat_add({})", xs.join(", ")) }, m)
    }
    fn sh(&mut self, t: T, o: &mut Vec<BTreeSet<T>>, d: usize) -> (String, usize) {
        if d == 0 {
            return ("..".into(), CLOSED);
        }
        let memo = self.recording || self.done;
        if memo {
            if let Some(s) = self.canon.get(&t) {
                return (s.to_string(), CLOSED);
            }
        }
        let (s, m) = self.sh0(t, o, d - 1);
        if m == CLOSED && memo {
            self.canon.insert(t, s.as_str().into());
        }
        (s, m)
    }
    fn sh0(&mut self, t: T, o: &mut Vec<BTreeSet<T>>, d: usize) -> (String, usize) {
        match self.tab.k(t).clone() {
            K::Int(i) => (i.to_string(), CLOSED),
            K::Bytes(b) => {
                let mut s = String::from("x'");
                for c in b.iter().take(40) {
                    s.push_str(&format!("{c:02x}"));
                }
                s.push('\'');
                (s, CLOSED)
            }
            K::Str(s) => (format!("{:?}", self.tab.str(s)), CLOSED),
            K::Sym(s) => {
                let n = self.tab.str(s);
                (if n.starts_with("undef") { "undef".into() } else { n.to_string() }, CLOSED)
            }
            K::Field(b, v, i) => {
                let f = self.fname(b, v, i);
                let (b, m) = self.sh(b, o, d);
                if v > 0 || f.chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false) && v >= 0 {
                    (format!("{b}@{v}.{f}"), m)
                } else {
                    (format!("{b}.{f}"), m)
                }
            }
            K::Ix(b, i) => {
                let (v, m) = self.shs(&[b, i], o, d);
                (format!("{}[{}]", v[0], v[1]), m)
            }
            K::Slice(b, f, e) => {
                let (v, m) = self.shs(&[b, f, e], o, d);
                (format!("{}[{}..{}]", v[0], v[1], v[2]), m)
            }
            K::Len(b) => {
                let (s, m) = self.sh(b, o, d);
                (format!("len({})", cap(s)), m)
            }
            K::Lin(v, k) if k >= 0 && v.iter().all(|x| x.1 == 1) && v.iter().any(|x| self.is_sat(x.0)) => self.sh_sum(t, o, d),
            K::Lin(v, k) => {
                let mut m = CLOSED;
                let mut parts: Vec<(String, i128)> = vec![];
                for (x, c) in v.iter() {
                    let (s, l) = self.sh(*x, o, d);
                    m = m.min(l);
                    parts.push((cap(s), *c));
                }
                parts.sort();
                let mut s = String::new();
                for (x, c) in parts {
                    if c == 1 {
                        s.push_str(&format!("+{x}"));
                    } else if c == -1 {
                        s.push_str(&format!("-{x}"));
                    } else {
                        s.push_str(&format!("{c:+}*{x}"));
                    }
                }
                if k != 0 {
                    s.push_str(&format!("{k:+}"));
                }
                (format!("({})", s.trim_start_matches('+')), m)
            }
            K::Op(n, a) => {
                let n = self.tab.str(n).to_string();
                if n == "sat_add" && self.is_sat(t) {
                    return self.sh_sum(t, o, d);
                }
                // sums of removed bytes, in any order
                let mut a = a.to_vec();
                if n == "removed+" {
                    let mut i = 0;
                    while i < a.len() && a.len() < 60 {
                        match self.tab.k(a[i]).clone() {
                            K::Op(q, b) if &*self.tab.str(q) == "removed+" => {
                                a.splice(i..i + 1, b.iter().copied());
                            }
                            K::Agg(q, 0, b) if b.is_empty() && a.len() > 1 && self.tab.str(q).ends_with("::StorageRemovedBytes") => {
                                a.remove(i);
                            }
                            _ => i += 1,
                        }
                    }
                    if a.len() == 1 {
                        return self.sh(a[0], o, d);
                    }
                }
                let (mut xs, m) = self.shs(&a, o, d);
                if matches!(n.as_str(), "removed+" | "eq" | "and" | "or" | "mul" | "min" | "max" | "sat_add" | "band" | "bor" | "bxor") {
                    xs.sort();
                }
                if n == "eq0" || n == "le0" {
                    return (format!("{}{}", xs[0], if n == "eq0" { "==0" } else { "<=0" }), m);
                }
                (format!("{n}({})", xs.join(", ")), m)
            }
            K::Discr(b) => {
                let (s, m) = self.sh(b, o, d);
                (format!("discr({s})"), m)
            }
            K::Agg(n, v, a) => {
                let n = self.tab.str(n).to_string();
                let (xs, m) = self.shs(&a, o, d);
                if n == "tuple" {
                    return (format!("({})", xs.join(", ")), m);
                }
                if n == "vec" {
                    return (format!("[{}]", xs.join(", ")), m);
                }
                let vn = match self.p.adts.get(n.as_str()) {
                    Some(ad) if ad.is_enum => ad.vars.get(v as usize).map(|x| x.name.to_string()).unwrap_or_default(),
                    _ => String::new(),
                };
                let short = n.rsplit("::").next().unwrap_or(&n).to_string();
                let head = match n.as_str() {
                    "core::option::Option" | "core::result::Result" | "core::cmp::Ordering" | "core::ops::control_flow::ControlFlow" => vn,
                    _ if vn.is_empty() => short,
                    _ => format!("{short}::{vn}"),
                };
                if xs.is_empty() {
                    (head, m)
                } else {
                    (format!("{head}({})", xs.join(", ")), m)
                }
            }
            K::Clo(i, a) => {
                let (xs, m) = self.shs(&a, o, d);
                (format!("closure{}[{}]", self.digest(i), xs.join(", ")), m)
            }
            K::Ref(r, p) => {
                let mut s = "&mut _".to_string();
                if let Some(n) = self.rootname.get(&r) {
                    s = format!("&mut {n}");
                }
                let mut m = CLOSED;
                for x in p.iter() {
                    let (q, l) = self.proj(None, x, o, d);
                    m = m.min(l);
                    s.push_str(&q);
                }
                (s, m)
            }
            K::Mut(n, i, a) => {
                let n = self.tab.str(n).to_string();
                let (xs, m) = self.shs(&a, o, d);
                (format!("after{i}:{n}({})", xs.join(", ")), m)
            }
            K::Phi(..) => self.phi(t, o, d),
            K::Push(b, e) => {
                let (v, m) = self.shs(&[b, e], o, d);
                (format!("push({}, {})", v[0], v[1]), m)
            }
            K::Upd(b, p, v) => {
                let (ps, m1) = self.proj(Some(b), &p, o, d);
                let (xs, m2) = self.shs(&[b, v], o, d);
                (format!("{}{{{ps}:={}}}", xs[0], xs[1]), m1.min(m2))
            }
            K::Fn(i) => (norm(&self.fns[i as usize].name), CLOSED),
        }
    }
    /// the phis a phi merges, transitively, and the other values flowing in
    pub fn cluster(&mut self, t: T) -> (BTreeSet<T>, BTreeSet<T>) {
        let mut c = BTreeSet::new();
        let mut leaves = BTreeSet::new();
        let mut w = vec![t];
        while let Some(x) = w.pop() {
            if !c.insert(x) {
                continue;
            }
            let K::Phi(n, _) = self.tab.k(x) else { continue };
            let n = *n;
            if let Some(vs) = self.gmap.as_ref().and_then(|g| g.get(&x)) {
                for v in vs {
                    if let K::Phi(..) = self.tab.k(*v) {
                        w.push(*v);
                    } else {
                        leaves.insert(*v);
                    }
                }
                continue;
            }
            let Some(m) = self.nodes[n as usize].pmap.get(&x) else {
                leaves.insert(x);
                continue;
            };
            for v in m.values() {
                if let K::Phi(..) = self.tab.k(*v) {
                    w.push(*v);
                } else {
                    leaves.insert(*v);
                }
            }
        }
        (c, leaves)
    }
    /// can the merged value go round a loop unchanged?
    fn idle_cycle(&self, c: &BTreeSet<T>) -> bool {
        // edges y -> x where x takes y over as it is
        let mut indeg: std::collections::BTreeMap<T, usize> = c.iter().map(|x| (*x, 0)).collect();
        let mut succ: std::collections::BTreeMap<T, Vec<T>> = Default::default();
        for x in c {
            let K::Phi(n, _) = self.tab.k(*x) else { continue };
            let vs: Option<Vec<T>> = match self.gmap.as_ref().and_then(|g| g.get(x)) {
                Some(v) => Some(v.clone()),
                None => self.nodes[*n as usize].pmap.get(x).map(|m| m.values().copied().collect()),
            };
            if let Some(vs) = vs {
                for v in vs.iter() {
                    if c.contains(v) {
                        succ.entry(*v).or_default().push(*x);
                        *indeg.get_mut(x).unwrap() += 1;
                    }
                }
            }
        }
        let mut w: Vec<T> = indeg.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
        let mut left = c.len();
        while let Some(x) = w.pop() {
            left -= 1;
            for y in succ.get(&x).cloned().unwrap_or_default() {
                let e = indeg.get_mut(&y).unwrap();
                *e -= 1;
                if *e == 0 {
                    w.push(y);
                }
            }
        }
        left > 0
    }
    fn phi(&mut self, t: T, o: &mut Vec<BTreeSet<T>>, d: usize) -> (String, usize) {
        for (i, s) in o.iter().enumerate().rev() {
            if s.contains(&t) {
                return ("@".into(), i);
            }
        }
        // a loop-carried value inside one inside one: shown where it stands for itself
        if o.len() >= NEST {
            return ("~".into(), 0);
        }
        let (c, leaves) = self.cluster(t);
        if leaves.contains(&t) {
            return ("phi?".into(), CLOSED);
        }
        // induction variables: one start, one constant step
        let mut init: Option<T> = None;
        let mut step: Option<i128> = None;
        let mut ind = true;
        for v in &leaves {
            let l = self.tab.lin(*v);
            let inc: Vec<_> = l.v.iter().filter(|x| c.contains(&x.0)).collect();
            if inc.is_empty() {
                if self.tab.phis[*v as usize].iter().any(|p| c.contains(p)) || init.is_some() {
                    ind = false;
                    break;
                }
                init = Some(*v);
            } else if inc.len() == 1 && inc[0].1 == 1 && l.v.len() == 1 && l.k != 0 {
                if step.is_some() && step != Some(l.k) {
                    ind = false;
                    break;
                }
                step = Some(l.k);
            } else {
                ind = false;
                break;
            }
        }
        if ind {
            if let (Some(i), Some(k)) = (init, step) {
                let (i0, m) = self.sh(i, o, d);
                if self.idle_cycle(&c) {
                    return (format!("cnt{{{i0}|@{k:+}}}"), m);
                }
                return (
                    match (i0.as_str(), k) {
                        ("0", 1) => "*".into(),
                        (x, 1) => format!("*({x}..)"),
                        (x, k) => format!("*({x}..{k:+})"),
                    },
                    m,
                );
            }
        }
        let me = o.len();
        o.push(c);
        let mut xs = vec![];
        let mut m = CLOSED;
        for v in &leaves {
            let (s, l) = self.sh(*v, o, d);
            if l < me {
                m = m.min(l);
            }
            xs.push(cap(s));
        }
        o.pop();
        xs.sort();
        xs.dedup();
        if xs.len() == 1 && !xs[0].contains('@') {
            return (xs.pop().unwrap(), m);
        }
        (format!("phi{{{}}}", xs.join("|")), m)
    }
    /// as it prints inside the phi of that cluster
    pub fn show_in(&mut self, v: T, c: &BTreeSet<T>) -> String {
        let mut o = vec![c.clone()];
        cap(self.sh(v, &mut o, 40).0)
    }
    /// a decided condition
    pub fn show_atom(&mut self, t: T, c: i128, eq: bool) -> String {
        if let Some((n, a)) = self.tab.opname(t) {
            let n = n.to_string();
            let a = a.to_vec();
            let pos = (c != 0) == eq;
            match n.as_str() {
                "not" => return self.show_atom(a[0], 1, !pos),
                "le0" => {
                    let mut l = self.tab.raw_lin(a[0]);
                    if !pos {
                        l = l.scale(-1).unwrap_or(l);
                        l.k += 1;
                    }
                    return self.show_cmp(&l, "<=");
                }
                "eq0" => {
                    let l = self.tab.raw_lin(a[0]);
                    return self.show_cmp(&l, if pos { "==" } else { "!=" });
                }
                _ => {}
            }
            if matches!(n.as_str(), "eq" | "lt" | "and" | "or") || self.tab.tyname(t) == "bool" {
                let s = self.show(t);
                return if pos { s } else { format!("!{s}") };
            }
        }
        if self.tab.tyname(t) == "bool" {
            let s = self.show(t);
            return if (c != 0) == eq { s } else { format!("!{s}") };
        }
        if let K::Discr(b) = self.tab.k(t).clone() {
            let s = self.show(b);
            let vn = self
                .discr_adt
                .get(&t)
                .and_then(|n| self.p.adts.get(n))
                .and_then(|a| a.vars.iter().find(|v| v.discr == c))
                .map(|v| v.name.to_string())
                .unwrap_or_else(|| c.to_string());
            return format!("{s} {} {vn}", if eq { "is" } else { "is not" });
        }
        let mut l = self.tab.lin(t);
        l.k -= c;
        self.show_cmp(&l, if eq { "==" } else { "!=" })
    }
    pub fn show_cmp_pub(&mut self, l: &Lin) -> String {
        self.show_cmp(l, "<=")
    }
    fn show_cmp(&mut self, l: &Lin, op: &str) -> String {
        // x == lowest value of its type is x <= lowest; x != lowest is lowest + 1 <= x
        if op != "<=" && l.v.len() == 1 && l.v[0].1.abs() == 1 {
            let (x, sg) = l.v[0];
            let c = -l.k * sg;
            let ty = self.tab.tyname(x).to_string();
            let len = matches!(self.tab.opname(x), Some(("len", _)));
            let rg = int_range(&ty).or(if len { Some((0, i128::MAX)) } else { None });
            if let Some((lo, hi)) = rg {
                let mk = |co: i128, k: i128| Lin { v: [(x, co)].into_iter().collect(), k };
                if c == lo {
                    let m = if op == "==" { mk(1, -c) } else { mk(-1, c + 1) };
                    return self.show_cmp(&m, "<=");
                }
                if c == hi {
                    let m = if op == "==" { mk(-1, c) } else { mk(1, -c + 1) };
                    return self.show_cmp(&m, "<=");
                }
            }
        }
        let mut parts: Vec<(String, i128)> = l.v.iter().map(|(x, c)| (*x, *c)).map(|(x, c)| (self.show(x), c)).collect();
        parts.sort();
        let mut k = l.k;
        if op != "<=" && parts.first().map(|p| p.1 < 0).unwrap_or(false) {
            for p in parts.iter_mut() {
                p.1 = -p.1;
            }
            k = -k;
        }
        let (mut a, mut b): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for (s, c) in parts {
            let m = if c.abs() == 1 { s } else { format!("{}*{s}", c.abs()) };
            if c > 0 {
                a.push(m)
            } else {
                b.push(m)
            }
        }
        if k > 0 && op == "<=" && !b.is_empty() && a.is_empty() {
            a.push(k.to_string());
        } else if k > 0 && op == "<=" {
            a.push(k.to_string());
        } else if k != 0 {
            b.push((-k).to_string());
        }
        if a.is_empty() {
            a.push("0".into());
        }
        if b.is_empty() {
            b.push("0".into());
        }
        format!("{} {op} {}", a.join("+"), b.join("+"))
    }
}
