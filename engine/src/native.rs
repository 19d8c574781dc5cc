//! Semantics of the std (and a few third-party) functions the engine knows.
use crate::exec::*;
use crate::load::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

const OPT: &str = "core::option::Option";
const RES: &str = "core::result::Result";
const CF: &str = "core::ops::control_flow::ControlFlow";
const ORD: &str = "core::cmp::Ordering";
const VITER: &str = "sa_models::VIter";

type Outs = Option<Vec<(St, T)>>;

fn strip(t: &str) -> &str {
    let mut t = t;
    loop {
        let u = t.trim_start_matches('&').trim_start_matches("mut ").trim();
        if u == t {
            return t;
        }
        t = u;
    }
}
/// type inside `<impl u32>` of a method path
fn impl_ty(name: &str) -> Option<&str> {
    let i = name.find("<impl ")?;
    let r = &name[i + 6..];
    let j = r.find('>')?;
    Some(&r[..j])
}

impl<'p> Eng<'p> {
    fn one(&mut self, st: St, v: T) -> Outs {
        Some(vec![(st, v)])
    }
    fn arg_ref(&self, a: T) -> Option<(Root, Vec<Pr>)> {
        match self.tab.k(a) {
            K::Ref(r, p) => Some((*r, p.to_vec())),
            _ => None,
        }
    }
    /// all outcomes of an optional value: (state, Some(payload) | None)
    fn opt_cases(&mut self, st: &St, v: T) -> Vec<(St, Option<T>)> {
        let v = self.deref_val(st, v);
        let mut out = vec![];
        if let Some(s) = self.split(st, v, OPT, 0) {
            out.push((s, None));
        }
        if let Some(s) = self.split(st, v, OPT, 1) {
            let p = self.tab.field(v, 1, 0);
            out.push((s, Some(p)));
        }
        out
    }
    fn res_cases(&mut self, st: &St, v: T) -> Vec<(St, Result<T, T>)> {
        let v = self.deref_val(st, v);
        let mut out = vec![];
        if let Some(s) = self.split(st, v, RES, 0) {
            let p = self.tab.field(v, 0, 0);
            out.push((s, Ok(p)));
        }
        if let Some(s) = self.split(st, v, RES, 1) {
            let p = self.tab.field(v, 1, 0);
            out.push((s, Err(p)));
        }
        out
    }
    fn fork(&mut self, st: &St, c: T) -> (Option<St>, Option<St>) {
        let mut a = st.clone();
        let mut b = st.clone();
        let x = self.assume(&mut a, c, true);
        let y = self.assume(&mut b, c, false);
        (if x { Some(a) } else { None }, if y { Some(b) } else { None })
    }
    fn opt_if(&mut self, st: &St, c: T, v: T) -> Outs {
        let (a, b) = self.fork(st, c);
        let mut out = vec![];
        if let Some(a) = a {
            let x = self.tab.some(v);
            out.push((a, x));
        }
        if let Some(b) = b {
            let x = self.tab.none();
            out.push((b, x));
        }
        Some(out)
    }
    fn boolv(&mut self, b: bool) -> T {
        self.tab.int(b as i128)
    }
    fn ordv(&mut self, i: u32) -> T {
        self.tab.agg(ORD, i, &[])
    }
    /// length condition checked by the callee
    fn need(&mut self, cx: &Cx, st: &mut St, c: T, kind: &str, what: &str) -> bool {
        let ok = self.truth(st, c) == Some(true);
        let w = if self.recording && !ok { format!("{what} needs {}", self.show(c)) } else { what.to_string() };
        self.site(cx, kind, w, ok);
        self.assume(st, c, true)
    }
    fn need_ovf(&mut self, cx: &Cx, st: &mut St, c: T, op: &str, x: T, y: T, ty: &str) -> bool {
        let ok = self.truth(st, c) == Some(true);
        let w = if self.recording && !ok { format!("{} {} {} : {}", self.show(x), op, self.show(y), ty) } else { format!("{op} {ty}") };
        self.site(cx, "overflow", w, ok);
        let log = st.log.clone();
        let r = self.assume(st, c, true);
        st.log = log;
        r
    }
    fn alloc_site(&mut self, cx: &Cx, st: &St, n: T, what: &str) {
        if self.recording {
            let (_, hi) = self.ival(st, n);
            let mut ok = hi <= self.cfg.alloc_max;
            if !ok {
                // bounded by (a small multiple of) the length of data that already exists
                let mut lens: Vec<T> = vec![];
                for l in st.lin.iter() {
                    for (t, _) in &l.v {
                        if let K::Len(_) = self.tab.k(*t) {
                            lens.push(*t);
                        }
                    }
                }
                for (t, _) in self.tab.lin(n).v {
                    if let K::Len(_) = self.tab.k(t) {
                        lens.push(t);
                    }
                }
                lens.sort();
                lens.dedup();
                for t in lens {
                    let m = self.tab.int(64);
                    let x = self.tab.mul(t, m);
                    if self.le(st, n, x, -(1 << 16)) {
                        ok = true;
                        break;
                    }
                }
            }
            let w = format!("{what} of {}", self.show(n));
            self.site(cx, "alloc", w, ok);
        }
    }
    pub fn viter(&mut self, coll: T, st: &St) -> T {
        let c = self.deref_val(st, coll);
        let z = self.tab.int(0);
        let l = self.tab.len(c);
        self.tab.agg(VITER, 0, &[coll, z, l])
    }
    /// `next` of an iterator the workspace itself defines
    pub fn ws_iter(&self, v: T) -> Option<usize> {
        let n = match self.agg_name(v) {
            Some(n) => n.to_string(),
            None => norm(strip(self.tab.tyname(v))),
        };
        self.wsit.get(&n).copied()
    }
    /// view any value as an iterator value
    fn as_iter(&mut self, st: &St, v: T) -> T {
        let x = self.deref_val(st, v);
        if let Some(n) = self.agg_name(x).map(|s| s.to_string()) {
            if n.starts_with("sa_models::") || n == "core::ops::range::Range" || n == "core::ops::range::RangeFrom" {
                return x;
            }
            if n == OPT {
                return self.tab.agg("sa_models::OptIter", 0, &[x]);
            }
        }
        if self.tab.tyname(x).starts_with(OPT) {
            return self.tab.agg("sa_models::OptIter", 0, &[x]);
        }
        if self.ws_iter(x).is_some() {
            return x;
        }
        if let K::Ref(..) = self.tab.k(v) {
            return self.viter(v, st);
        }
        self.viter(x, st)
    }
    /// a collection push
    fn push(&mut self, v: T, x: T) -> T {
        if let K::Agg(n, 0, a) = self.tab.k(v).clone() {
            if self.tab.str(n) == "vec" && a.len() < 48 {
                let mut a = a.to_vec();
                a.push(x);
                return self.tab.mk(K::Agg(n, 0, a.into()));
            }
        }
        self.tab.mk(K::Push(v, x))
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let la = self.tab.len(a);
        if self.tab.as_int(la) == Some(0) {
            return b;
        }
        let lb = self.tab.len(b);
        if self.tab.as_int(lb) == Some(0) {
            return a;
        }
        let mut parts: Vec<T> = vec![];
        for x in [a, b] {
            match self.tab.k(x).clone() {
                K::Op(n, v) if self.tab.str(n) == "concat" => parts.extend(v.iter()),
                _ => parts.push(x),
            }
        }
        // merge adjacent literals and element vectors
        let mut out: Vec<T> = vec![];
        for x in parts {
            if let Some(&l) = out.last() {
                if let Some(m) = self.merge_lit(l, x) {
                    out.pop();
                    out.push(m);
                    continue;
                }
            }
            out.push(x);
        }
        if out.len() == 1 {
            return out[0];
        }
        self.tab.op("concat", &out)
    }
    fn elems(&mut self, x: T) -> Option<Vec<T>> {
        match self.tab.k(x).clone() {
            K::Agg(n, 0, a) if self.tab.str(n) == "vec" => Some(a.to_vec()),
            K::Bytes(b) if b.len() <= 64 => Some(b.iter().map(|c| self.tab.int(*c as i128)).collect()),
            K::Op(n, a) if matches!(self.tab.str(n), "to_be" | "to_le") => {
                let l = self.tab.len(x);
                if self.tab.as_int(l) == Some(1) {
                    Some(vec![a[0]])
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn merge_lit(&mut self, a: T, b: T) -> Option<T> {
        if let K::Slice(x, f, t) = self.tab.k(a).clone() {
            if let K::Slice(y, f2, t2) = self.tab.k(b).clone() {
                if x == y && t == f2 {
                    return Some(self.tab.slice(x, f, t2));
                }
            }
        }
        let x = self.elems(a)?;
        let y = self.elems(b)?;
        if x.len() + y.len() > 128 {
            return None;
        }
        let mut x = x;
        x.extend(y);
        Some(self.tab.agg("vec", 0, &x))
    }
    fn range_bounds(&mut self, st: &St, r: T, len: T) -> Option<(T, T)> {
        let r = self.deref_val(st, r);
        let z = self.tab.int(0);
        let one = self.tab.int(1);
        match self.tab.k(r).clone() {
            K::Agg(n, _, a) => {
                let n = self.tab.str(n).to_string();
                Some(match n.as_str() {
                    "core::ops::range::Range" => (a[0], a[1]),
                    "core::ops::range::RangeFrom" => (a[0], len),
                    "core::ops::range::RangeTo" => (z, a[0]),
                    "core::ops::range::RangeFull" => (z, len),
                    "core::ops::range::RangeToInclusive" => (z, self.tab.add(a[0], one)),
                    "sa_models::RngI" => (a[0], self.tab.add(a[1], one)),
                    _ => return None,
                })
            }
            _ => None,
        }
    }
    fn set(&mut self, st: &mut St, r: &(Root, Vec<Pr>), v: T) {
        self.store(st, r.0, &r.1.clone(), v);
    }
    /// elementary accessors on option-like results
    fn cmp_int(&mut self, st: &St, a: T, b: T) -> Outs {
        let mut out = vec![];
        let ge = self.int_le(b, a);
        let le = self.int_le(a, b);
        let eq = self.int_eq(a, b);
        let mut s = st.clone();
        if self.assume(&mut s, ge, false) {
            let v = self.ordv(0);
            out.push((s, v));
        }
        let mut s = st.clone();
        if self.assume(&mut s, eq, true) {
            let v = self.ordv(1);
            out.push((s, v));
        }
        let mut s = st.clone();
        if self.assume(&mut s, le, false) {
            let v = self.ordv(2);
            out.push((s, v));
        }
        Some(out)
    }
    pub fn lt(&mut self, st: &St, a: T, b: T) -> T {
        let a = self.deref_val(st, a);
        let b = self.deref_val(st, b);
        let isint = |e: &Tab, t: T| matches!(e.k(t), K::Int(_) | K::Lin(..) | K::Len(_)) || int_range(e.tyname(t)).is_some();
        if isint(&self.tab, a) || isint(&self.tab, b) {
            let c = self.int_le(b, a);
            return self.tab.not(c);
        }
        if a == b {
            return self.tab.int(0);
        }
        // options: nothing comes before something
        let opt = |e: &Self, t: T| match e.tab.k(t) {
            K::Agg(n, v, x) if e.tab.str(*n) == "core::option::Option" => Some((*v, x.first().copied())),
            _ => None,
        };
        let (oa, ob) = (opt(self, a), opt(self, b));
        if oa.is_some() || ob.is_some() {
            let some = |e: &mut Self, t: T, o: Option<(u32, Option<T>)>| match o {
                Some((v, _)) => e.tab.int(v as i128),
                None => {
                    let d = e.discr(st, t, "core::option::Option");
                    let one = e.tab.int(1);
                    e.int_eq(d, one)
                }
            };
            let val = |e: &mut Self, t: T, o: Option<(u32, Option<T>)>| match o {
                Some((_, x)) => x,
                None => Some(e.tab.field(t, 1, 0)),
            };
            let (sa, sb) = (some(self, a, oa), some(self, b, ob));
            let na = self.tab.not(sa);
            let l = match (val(self, a, oa), val(self, b, ob)) {
                (Some(x), Some(y)) => self.lt(st, x, y),
                _ => self.tab.int(0),
            };
            let l = self.or(na, l);
            return self.and(sb, l);
        }
        self.tab.op("lt", &[a, b])
    }
    fn cmp_gen(&mut self, st: &St, a: T, b: T) -> Outs {
        let a = self.deref_val(st, a);
        let b = self.deref_val(st, b);
        let isint = |e: &Tab, t: T| matches!(e.k(t), K::Int(_) | K::Lin(..) | K::Len(_)) || int_range(e.tyname(t)).is_some();
        if isint(&self.tab, a) || isint(&self.tab, b) {
            return self.cmp_int(st, a, b);
        }
        let l = self.lt(st, a, b);
        let g = self.lt(st, b, a);
        let e = self.val_eq(st, a, b);
        let mut out = vec![];
        for (i, (x, y, z)) in [(true, false, false), (false, true, false), (false, false, true)].into_iter().enumerate() {
            let mut s = st.clone();
            if self.assume(&mut s, l, x) && self.assume(&mut s, e, y) && self.assume(&mut s, g, z) {
                let v = self.ordv(i as u32);
                out.push((s, v));
            }
        }
        Some(out)
    }
    fn int_bytes(ty: &str) -> Option<i128> {
        Some(match ty {
            "u8" | "i8" => 1,
            "u16" | "i16" => 2,
            "u32" | "i32" => 4,
            "u64" | "i64" | "usize" | "isize" => 8,
            "u128" | "i128" => 16,
            _ => return None,
        })
    }
    fn from_bytes(&mut self, v: T, ty: &str, be: bool) -> T {
        let n = if be { "from_be" } else { "from_le" };
        let inv = if be { "to_be" } else { "to_le" };
        if let Some((o, a)) = self.tab.opname(v) {
            if o == inv {
                return a[0];
            }
        }
        if let K::Bytes(b) = self.tab.k(v).clone() {
            if b.len() <= 8 {
                let mut r: i128 = 0;
                for i in 0..b.len() {
                    let x = if be { b[i] } else { b[b.len() - 1 - i] };
                    r = r << 8 | x as i128;
                }
                return self.tab.int(r);
            }
        }
        if ty == "u8" {
            let z = self.tab.int(0);
            let r = self.tab.ix(v, z);
            self.tab.set_ty(r, "u8");
            return r;
        }
        // bytes named one by one are the range they are
        let mut v = v;
        if let K::Agg(_, _, a) = self.tab.k(v).clone() {
            let mut base = None;
            let mut ok = a.len() > 1;
            for (j, x) in a.iter().enumerate() {
                match self.tab.k(*x).clone() {
                    K::Ix(b, i) => {
                        let i = self.tab.as_int(i);
                        match (base, i) {
                            (None, Some(i)) => base = Some((b, i)),
                            (Some((c, i0)), Some(i)) if c == b && i == i0 + j as i128 => {}
                            _ => ok = false,
                        }
                    }
                    _ => ok = false,
                }
            }
            if let (true, Some((b, i))) = (ok, base) {
                let f = self.tab.int(i);
                let t = self.tab.int(i + a.len() as i128);
                v = self.tab.slice(b, f, t);
            }
        }
        self.top(n, &[v], ty)
    }
    fn to_bytes(&mut self, v: T, ty: &str, be: bool) -> T {
        let n = if be { "to_be" } else { "to_le" };
        if let (Some(i), Some(k)) = (self.tab.as_int(v), Self::int_bytes(ty)) {
            if k <= 8 {
                let mut b: Vec<u8> = (0..k).map(|j| ((i >> (8 * j)) & 0xff) as u8).collect();
                if be {
                    b.reverse();
                }
                return self.tab.mk(K::Bytes(b.into()));
            }
        }
        let t = self.tab.op(n, &[v]);
        if let Some(k) = Self::int_bytes(ty) {
            let s = format!("[u8; {k}]");
            let s = self.tab.s(&s);
            self.tab.ty[t as usize] = s;
        }
        t
    }
    fn reader_take(&mut self, st: &St, rd: T, n: T) -> Option<(Option<(St, T)>, Option<St>)> {
        // the reader is the remaining slice
        let r = self.arg_ref(rd)?;
        let cur = self.load(st, r.0, &r.1);
        let (r, cur) = match self.tab.k(cur).clone() {
            K::Ref(a, b) => {
                let v = self.deref_val(st, cur);
                ((a, b.to_vec()), v)
            }
            _ => (r, cur),
        };
        let l = self.tab.len(cur);
        let c = self.int_le(n, l);
        let (ok, bad) = self.fork(st, c);
        let ok = ok.map(|mut s| {
            let z = self.tab.int(0);
            let v = self.tab.slice(cur, z, n);
            let rest = self.tab.slice(cur, n, l);
            self.set(&mut s, &r, rest);
            (s, v)
        });
        Some((ok, bad))
    }
    fn err_io(&mut self) -> T {
        let e = self.sym("io_error");
        self.tab.err(e)
    }
    pub fn native(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> Outs {
        let name: &str = &f.norm;
        let rname: String = f.rname.as_deref().unwrap_or("").to_string();
        let a = |i: usize| args[i];
        let nargs = args.len();
        let v = |e: &mut Self, i: usize| -> T {
            let x = args[i];
            e.deref_val(&st, x)
        };
        let ga = |i: usize| f.ga.get(i).map(|s| &**s).unwrap_or("");
        match name {
            "core::cell::RefCell::borrow_mut" if matches!(self.tab.k(a(0)), K::Field(..) | K::Sym(_)) && self.cell(a(0)).is_some() => {
                let r = self.cell(a(0)).unwrap();
                let t = self.tab.mk(K::Ref(r, Rc::from(vec![])));
                return self.one(st, t);
            }
            "core::cell::RefCell::borrow" if self.cells.iter().any(|c| c.0 == a(0)) => {
                let r = self.cell(a(0)).unwrap();
                let t = self.load(&st, r, &[]);
                return self.one(st, t);
            }
            // ---- engine intrinsics
            "sa_models::__len" => {
                let x = v(self, 0);
                let l = self.tab.len(x);
                return self.one(st, l);
            }
            "sa_models::__ix" => {
                let i = v(self, 1);
                if let K::Ref(r, p) = self.tab.k(a(0)).clone() {
                    let inner = self.load(&st, r, &p);
                    if let K::Ref(r2, p2) = self.tab.k(inner).clone() {
                        let mut q = p2.to_vec();
                        q.push(Pr::Ix(i));
                        let t = self.tab.mk(K::Ref(r2, q.into()));
                        return self.one(st, t);
                    }
                }
                let x = v(self, 0);
                let t = self.tab.ix(x, i);
                return self.one(st, t);
            }
            "sa_models::__slice" => {
                let x = v(self, 0);
                let i = v(self, 1);
                let j = v(self, 2);
                let t = self.tab.slice(x, i, j);
                return self.one(st, t);
            }
            "sa_models::__push" => {
                let r = self.arg_ref(a(0))?;
                let cur = self.load(&st, r.0, &r.1);
                let n = self.push(cur, a(1));
                let mut s = st;
                self.set(&mut s, &r, n);
                let u = self.tab.unit();
                return self.one(s, u);
            }
            "sa_models::__new" => {
                let t = self.tab.agg("vec", 0, &[]);
                return self.one(st, t);
            }
            // ---- transparent wrappers
            "core::clone::Clone::clone" | "core::ops::deref::Deref::deref" | "core::borrow::Borrow::borrow" | "core::convert::AsRef::as_ref"
            | "alloc::borrow::ToOwned::to_owned" | "alloc::slice::to_vec" | "alloc::vec::Vec::as_slice" | "core::option::Option::as_ref"
            | "core::option::Option::as_deref" | "core::option::Option::cloned" | "core::option::Option::copied" | "core::result::Result::as_ref"
            | "alloc::slice::into_vec" | "alloc::string::String::as_bytes" | "core::str::as_bytes" | "alloc::string::String::as_str"
            | "alloc::boxed::box_assume_init_into_vec_unsafe" | "alloc::vec::Vec::into_boxed_slice" | "core::hint::must_use"
            | "core::iter::traits::iterator::Iterator::cloned" | "core::iter::traits::iterator::Iterator::copied"
            | "core::iter::traits::iterator::Iterator::by_ref" | "core::iter::traits::iterator::Iterator::fuse" | "blake3::Hash::as_bytes"
            | "alloc::borrow::Cow::into_owned" | "core::convert::identity" | "alloc::rc::Rc::new" | "alloc::sync::Arc::new" | "alloc::boxed::Box::new"
            | "alloc::borrow::Cow::as_ref" | "alloc::string::String::into_bytes" | "core::array::as_slice" | "alloc::vec::Vec::from"
            | "alloc::boxed::Box::pin" | "core::pin::Pin::new" | "core::iter::traits::iterator::Iterator::into_iter" | "core::pin::Pin::get_ref"
            | "core::cell::RefCell::borrow" | "core::cell::Cell::get" | "core::cell::RefCell::into_inner" | "core::slice::as_ref"
            | "core::pin::Pin::as_ref" | "core::pin::Pin::new_unchecked" | "alloc::boxed::Box::into_inner" => {
                if name == "core::clone::Clone::clone" && f.rid.is_none() && !rname.is_empty() || true {
                    if name.ends_with("by_ref") {
                        return self.one(st, a(0));
                    }
                    if let K::Ref(r, p) = self.tab.k(a(0)).clone() {
                        // `&mut iter` handed to an adapter stays a reference for iterators only
                        let x = self.load(&st, r, &p);
                        if name.starts_with("core::iter::") {
                            return self.one(st, a(0));
                        }
                        let x = self.deref_val(&st, x);
                        return self.one(st, x);
                    }
                    return self.one(st, a(0));
                }
                return None;
            }
            "alloc::boxed::Box::new_uninit" => {
                let s = self.sym("uninit");
                return self.one(st, s);
            }
            "core::ops::deref::DerefMut::deref_mut" | "alloc::vec::Vec::as_mut_slice" | "core::convert::AsMut::as_mut" | "core::borrow::BorrowMut::borrow_mut"
            | "core::cell::RefCell::borrow_mut" | "core::cell::RefCell::get_mut" | "core::pin::Pin::as_mut" | "core::pin::Pin::get_mut"
            | "core::pin::Pin::get_unchecked_mut" => return self.one(st, a(0)),
            "core::mem::drop" | "core::mem::forget" | "core::ops::drop::Drop::drop" => {
                let u = self.tab.unit();
                return self.one(st, u);
            }
            "core::cell::Cell::new" | "core::cell::RefCell::new" => return self.one(st, a(0)),
            // ---- formatting carries no information
            "alloc::fmt::format" | "core::fmt::Arguments::new" | "core::fmt::Arguments::from_str" | "core::fmt::Arguments::from_str_nonconst"
            | "core::fmt::rt::Argument::new_display" | "core::fmt::rt::Argument::new_debug" | "core::fmt::rt::Argument::new_lower_hex"
            | "alloc::string::ToString::to_string" | "hex::encode" | "core::fmt::Arguments::new_v1" | "core::fmt::Arguments::new_const"
            | "alloc::string::String::from_utf8_lossy" | "thiserror::display::AsDisplay::as_display" => {
                let s = self.sym("fmt");
                return self.one(st, s);
            }
            // ---- panics
            "core::panicking::panic" | "core::panicking::panic_fmt" | "core::panicking::assert_failed" | "core::panicking::unreachable_display"
            | "core::panicking::panic_display" | "core::panicking::panic_explicit" | "core::panicking::panic_nounwind" | "std::process::abort"
            | "core::panicking::panic_str_literal" | "core::panicking::panic_const" | "core::panicking::assert_failed_inner" => {
                let m = match args.first().map(|x| self.tab.k(*x).clone()) {
                    Some(K::Str(s)) => self.tab.str(s).to_string(),
                    _ => String::new(),
                };
                self.site(cx, "panic", m, false);
                return Some(vec![]);
            }
            // ---- Try
            "core::ops::try_trait::Try::branch" => {
                let x = v(self, 0);
                let ty = strip(ga(0)).to_string();
                let mut out = vec![];
                if ty.starts_with(OPT) || self.agg_name(x) == Some(OPT) {
                    for (s, p) in self.opt_cases(&st, x) {
                        let r = match p {
                            Some(p) => self.tab.agg(CF, 0, &[p]),
                            None => {
                                let n = self.tab.none();
                                self.tab.agg(CF, 1, &[n])
                            }
                        };
                        out.push((s, r));
                    }
                } else if ty.starts_with(RES) || self.agg_name(x) == Some(RES) {
                    for (s, p) in self.res_cases(&st, x) {
                        let r = match p {
                            Ok(p) => self.tab.agg(CF, 0, &[p]),
                            Err(e) => {
                                let n = self.tab.err(e);
                                self.tab.agg(CF, 1, &[n])
                            }
                        };
                        out.push((s, r));
                    }
                } else {
                    return None;
                }
                return Some(out);
            }
            "core::ops::try_trait::FromResidual::from_residual" => {
                let x = v(self, 0);
                // error conversion does not change the outcome class
                return self.one(st, x);
            }
            "core::ops::try_trait::Try::from_output" => {
                let t = self.tab.ok(a(0));
                return self.one(st, t);
            }
            // ---- comparisons
            "core::cmp::PartialEq::eq" | "core::cmp::PartialEq::ne" => {
                let x = v(self, 0);
                let y = v(self, 1);
                let t = strip(ga(0)).to_string();
                let (x, y) = if int_range(&t).is_some() {
                    let (x, y) = (self.deref_val(&st, x), self.deref_val(&st, y));
                    self.type_val(x, &t);
                    self.type_val(y, &t);
                    (x, y)
                } else {
                    (x, y)
                };
                let e = if int_range(&t).is_some() { self.int_eq(x, y) } else { self.val_eq(&st, x, y) };
                let e = if name.ends_with("ne") { self.tab.not(e) } else { e };
                return self.one(st, e);
            }
            "core::cmp::PartialOrd::lt" | "core::cmp::PartialOrd::le" | "core::cmp::PartialOrd::gt" | "core::cmp::PartialOrd::ge" => {
                let x = v(self, 0);
                let y = v(self, 1);
                let t = strip(ga(0)).to_string();
                let (x, y) = if int_range(&t).is_some() {
                    let (x, y) = (self.deref_val(&st, x), self.deref_val(&st, y));
                    self.type_val(x, &t);
                    self.type_val(y, &t);
                    (x, y)
                } else {
                    (x, y)
                };
                let e = match name.rsplit("::").next().unwrap() {
                    "lt" => self.lt(&st, x, y),
                    "gt" => self.lt(&st, y, x),
                    "le" => {
                        let c = self.lt(&st, y, x);
                        self.tab.not(c)
                    }
                    _ => {
                        let c = self.lt(&st, x, y);
                        self.tab.not(c)
                    }
                };
                return self.one(st, e);
            }
            "core::cmp::Ord::cmp" => {
                let t = strip(ga(0)).to_string();
                let x = v(self, 0);
                let y = v(self, 1);
                let (x, y) = if int_range(&t).is_some() {
                    let (x, y) = (self.deref_val(&st, x), self.deref_val(&st, y));
                    self.type_val(x, &t);
                    self.type_val(y, &t);
                    (x, y)
                } else {
                    (x, y)
                };
                return self.cmp_gen(&st, x, y);
            }
            "core::cmp::PartialOrd::partial_cmp" => {
                let x = v(self, 0);
                let y = v(self, 1);
                let r = self.cmp_gen(&st, x, y)?;
                return Some(
                    r.into_iter()
                        .map(|(s, o)| {
                            let t = self.tab.some(o);
                            (s, t)
                        })
                        .collect(),
                );
            }
            "core::cmp::Ordering::reverse" | "core::cmp::Ordering::is_lt" | "core::cmp::Ordering::is_gt" | "core::cmp::Ordering::is_le"
            | "core::cmp::Ordering::is_ge" | "core::cmp::Ordering::is_eq" | "core::cmp::Ordering::is_ne" => {
                let x = v(self, 0);
                if let K::Agg(_, i, _) = self.tab.k(x).clone() {
                    let r = match name.rsplit("::").next().unwrap() {
                        "reverse" => self.ordv(2 - i),
                        "is_lt" => self.boolv(i == 0),
                        "is_gt" => self.boolv(i == 2),
                        "is_le" => self.boolv(i < 2),
                        "is_ge" => self.boolv(i > 0),
                        "is_eq" => self.boolv(i == 1),
                        _ => self.boolv(i != 1),
                    };
                    return self.one(st, r);
                }
                return None;
            }
            "core::cmp::Ordering::then" => {
                let x = v(self, 0);
                if let K::Agg(_, i, _) = self.tab.k(x) {
                    let r = if *i == 1 { a(1) } else { x };
                    return self.one(st, r);
                }
                return None;
            }
            "core::cmp::Ord::min" | "core::cmp::min" | "core::cmp::Ord::max" | "core::cmp::max" => {
                let x = v(self, 0);
                let y = v(self, 1);
                let ty = strip(ga(0)).to_string();
                if int_range(&ty).is_none() {
                    return None;
                }
                self.type_val(x, &ty);
                self.type_val(y, &ty);
                let n = if name.ends_with("min") { "min" } else { "max" };
                if let (Some(p), Some(q)) = (self.tab.as_int(x), self.tab.as_int(y)) {
                    let t = self.tab.int(if n == "min" { p.min(q) } else { p.max(q) });
                    return self.one(st, t);
                }
                let c = self.int_le(x, y);
                if let Some(b) = self.truth(&st, c) {
                    let r = if b == (n == "min") { x } else { y };
                    return self.one(st, r);
                }
                let (x, y) = if x < y { (x, y) } else { (y, x) };
                let t = self.top(n, &[x, y], &ty);
                return self.one(st, t);
            }
            "core::mem::take" | "core::mem::replace" => {
                let r = self.arg_ref(a(0))?;
                let old = self.load(&st, r.0, &r.1);
                let new = if name.ends_with("replace") {
                    a(1)
                } else {
                    let t = strip(ga(0)).to_string();
                    self.default_of(&t)?
                };
                let mut s = st;
                self.set(&mut s, &r, new);
                return self.one(s, old);
            }
            "core::mem::swap" => {
                let p = self.arg_ref(a(0))?;
                let q = self.arg_ref(a(1))?;
                let x = self.load(&st, p.0, &p.1);
                let y = self.load(&st, q.0, &q.1);
                let mut s = st;
                self.set(&mut s, &p, y);
                self.set(&mut s, &q, x);
                let u = self.tab.unit();
                return self.one(s, u);
            }
            "core::mem::size_of" => {
                if let Some(n) = Self::int_bytes(ga(0)) {
                    let t = self.tab.int(n);
                    return self.one(st, t);
                }
                return None;
            }
            "core::default::Default::default" => {
                let t = strip(ga(0)).to_string();
                if let Some(d) = self.default_of(&t) {
                    return self.one(st, d);
                }
                return None;
            }
            _ => {}
        }
        if name.starts_with("core::num::") {
            return self.num(cx, st, f, args);
        }
        if name.starts_with("core::option::Option::") {
            return self.option(cx, st, f, args);
        }
        if name.starts_with("core::result::Result::") {
            return self.result(cx, st, f, args);
        }
        if name.starts_with("core::iter::") || name.starts_with("core::slice::iter") {
            if let Some(r) = self.iter(cx, st.clone(), f, args) {
                return Some(r);
            }
        }
        if name.starts_with("alloc::vec::Vec::") || name.starts_with("core::slice::") || name.starts_with("alloc::slice::") || name.starts_with("alloc::collections::vec_deque::VecDeque::") || name.starts_with("core::array::") || name.starts_with("core::str::") || name.starts_with("alloc::string::String::") {
            if let Some(r) = self.vec(cx, st.clone(), f, args) {
                return Some(r);
            }
        }
        if let Some(m) = name
            .strip_prefix("alloc::collections::btree::map::BTreeMap::")
            .or(name.strip_prefix("std::collections::hash::map::HashMap::"))
            .or(name.strip_prefix("alloc::collections::btree::set::BTreeSet::"))
            .or(name.strip_prefix("std::collections::hash::set::HashSet::"))
            .or(name.strip_prefix("indexmap::map::IndexMap::"))
            .or(name.strip_prefix("intmap::IntMap::"))
        {
            let is_set = name.contains("Set::");
            let seq = name.contains("indexmap") || name.contains("IndexMap");
            return self.map(cx, st, m, is_set, seq, args);
        }
        match name {
            "alloc::vec::from_elem" => {
                let n = v(self, 1);
                self.alloc_site(cx, &st, n, "vec![_; n]");
                let t = self.tab.op("repeat", &[a(0), n]);
                return self.one(st, t);
            }
            "core::ops::index::Index::index" | "core::ops::index::IndexMut::index_mut" => {
                let x = v(self, 0);
                let i = v(self, 1);
                let l = self.tab.len(x);
                let mutable = name.ends_with("_mut");
                if ga(0).contains("Map<") || rname.contains("Map") {
                    let c = self.tab.op("has", &[x, i]);
                    let mut s = st;
                    if !self.need(cx, &mut s, c, "mapindex", "map index") {
                        return Some(vec![]);
                    }
                    let t = self.tab.op("get", &[x, i]);
                    return self.one(s, t);
                }
                let mut s = st;
                if let Some((f0, t0)) = self.range_bounds(&s, i, l) {
                    let c1 = self.int_le(f0, t0);
                    let c2 = self.int_le(t0, l);
                    let c = self.and(c1, c2);
                    if !self.need(cx, &mut s, c, "slice", "range index") {
                        return Some(vec![]);
                    }
                    let t = if mutable {
                        let r = self.arg_ref(a(0));
                        match r {
                            Some((r, mut p)) => {
                                let z = self.tab.int(0);
                                if f0 == z && t0 == l {
                                } else {
                                    p.push(Pr::Sl(f0, t0));
                                }
                                self.tab.mk(K::Ref(r, p.into()))
                            }
                            None => self.tab.slice(x, f0, t0),
                        }
                    } else {
                        self.tab.slice(x, f0, t0)
                    };
                    return self.one(s, t);
                }
                let ity = ga(1);
                if int_range(ity).is_some() || int_range(self.tab.tyname(i)).is_some() || self.tab.as_int(i).is_some() {
                    let c = self.int_le(l, i);
                    let c = self.tab.not(c);
                    if !self.need(cx, &mut s, c, "index", "index") {
                        return Some(vec![]);
                    }
                    let t = match (mutable, self.arg_ref(a(0))) {
                        (true, Some((r, mut p))) => {
                            p.push(Pr::Ix(i));
                            self.tab.mk(K::Ref(r, p.into()))
                        }
                        _ => self.tab.ix(x, i),
                    };
                    return self.one(s, t);
                }
                return None;
            }
            "core::convert::TryInto::try_into" | "core::convert::TryFrom::try_from" => {
                let x = v(self, 0);
                let (src, dst) = if name.ends_with("try_into") { (ga(0), ga(1)) } else { (ga(1), ga(0)) };
                let (src, dst) = (strip(src).to_string(), strip(dst).to_string());
                let e = self.sym("conv_error");
                if let Some(n) = array_len(&dst) {
                    let l = self.tab.len(x);
                    let k = self.tab.int(n);
                    let c = self.int_eq(l, k);
                    let (p, q) = self.fork(&st, c);
                    let mut out = vec![];
                    if let Some(p) = p {
                        let t = self.tab.ok(x);
                        out.push((p, t));
                    }
                    if let Some(q) = q {
                        let t = self.tab.err(e);
                        out.push((q, t));
                    }
                    return Some(out);
                }
                if int_range(&dst).is_some() && int_range(&src).is_some() {
                    self.type_val(x, &src);
                    let c = self.in_range_op(&st, x, &dst);
                    let (p, q) = self.fork(&st, c);
                    let mut out = vec![];
                    if let Some(p) = p {
                        let t = self.tab.ok(x);
                        out.push((p, t));
                    }
                    if let Some(q) = q {
                        let t = self.tab.err(e);
                        out.push((q, t));
                    }
                    return Some(out);
                }
                return None;
            }
            "core::convert::Into::into" | "core::convert::From::from" => {
                let x = a(0);
                let (src, dst) = if name.ends_with("::into") { (ga(0), ga(1)) } else { (ga(1), ga(0)) };
                if int_range(dst).is_some() {
                    let t = strip(src).to_string();
                    let y = self.deref_val(&st, x);
                    self.type_val(y, &t);
                    return self.one(st, y);
                }
                let d = strip(dst).to_string();
                // a workspace `From` impl is a body
                if name.ends_with("::into") {
                    return None;
                }
                let plain = ["alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "alloc::borrow::Cow", "[u8", "core::option::Option", "alloc::rc::Rc"];
                if plain.iter().any(|p| d.starts_with(p)) || d == strip(src) || d.is_empty() {
                    if d.starts_with(OPT) && !strip(src).starts_with(OPT) {
                        let t = self.tab.some(x);
                        return self.one(st, t);
                    }
                    let y = self.deref_val(&st, x);
                    return self.one(st, y);
                }
                return None;
            }
            "core::ops::range::RangeInclusive::new" => {
                let z = self.tab.int(0);
                let t = self.tab.agg("sa_models::RngI", 0, &[a(0), a(1), z]);
                return self.one(st, t);
            }
            "core::ops::range::RangeInclusive::start" | "core::ops::range::RangeInclusive::end" | "core::ops::range::RangeInclusive::into_inner" => {
                let x = v(self, 0);
                let s0 = self.tab.field(x, -1, 0);
                let e0 = self.tab.field(x, -1, 1);
                let t = match name.rsplit("::").next().unwrap() {
                    "start" => s0,
                    "end" => e0,
                    _ => self.tab.tuple(&[s0, e0]),
                };
                return self.one(st, t);
            }
            "core::ops::range::RangeInclusive::contains" | "core::ops::range::Range::contains" => {
                let x = v(self, 0);
                let i = v(self, 1);
                let s0 = self.tab.field(x, -1, 0);
                let e0 = self.tab.field(x, -1, 1);
                let lo = self.lt(&st, i, s0);
                let lo = self.tab.not(lo);
                let hi = if name.contains("Inclusive") {
                    let c = self.lt(&st, e0, i);
                    self.tab.not(c)
                } else {
                    self.lt(&st, i, e0)
                };
                let c = self.and(lo, hi);
                return self.one(st, c);
            }
            "core::ops::range::RangeInclusive::is_empty" | "core::ops::range::Range::is_empty" => {
                let x = v(self, 0);
                let s0 = self.tab.field(x, -1, 0);
                let e0 = self.tab.field(x, -1, 1);
                let c = if name.contains("Inclusive") {
                    self.lt(&st, e0, s0)
                } else {
                    let c = self.lt(&st, s0, e0);
                    self.tab.not(c)
                };
                return self.one(st, c);
            }
            "core::ops::arith::Add::add" | "core::ops::arith::Sub::sub" | "core::ops::arith::Mul::mul" | "core::ops::arith::Div::div"
            | "core::ops::arith::Rem::rem" => {
                let t = strip(ga(0)).to_string();
                if int_range(&t).is_none() {
                    return None;
                }
                let x = v(self, 0);
                let y = v(self, 1);
                self.type_val(x, &t);
                self.type_val(y, &t);
                let op = match name.rsplit("::").next().unwrap() {
                    "add" => "Add",
                    "sub" => "Sub",
                    "mul" => "Mul",
                    "div" => "Div",
                    _ => "Rem",
                };
                let r = self.arith(&st, op, x, y, &t);
                let mut s = st;
                if matches!(op, "Add" | "Sub" | "Mul") {
                    let c = self.in_range_op(&s, r, &t);
                    if !self.need_ovf(cx, &mut s, c, op, x, y, &t) {
                        return Some(vec![]);
                    }
                } else {
                    let z = self.tab.int(0);
                    let c = self.int_eq(y, z);
                    let c = self.tab.not(c);
                    if !self.need(cx, &mut s, c, "div0", op) {
                        return Some(vec![]);
                    }
                }
                return self.one(s, r);
            }
            "core::ops::arith::AddAssign::add_assign" | "core::ops::arith::SubAssign::sub_assign" => {
                let t = strip(ga(0)).to_string();
                if int_range(&t).is_none() {
                    return None;
                }
                let r = self.arg_ref(a(0))?;
                let x = self.load(&st, r.0, &r.1);
                let y = v(self, 1);
                let n = if name.contains("AddAssign") { self.tab.add(x, y) } else { self.tab.sub(x, y) };
                let mut s = st;
                let c = self.in_range_op(&s, n, &t);
                let op = if name.contains("AddAssign") { "Add" } else { "Sub" };
                if !self.need_ovf(cx, &mut s, c, op, x, y, &t) {
                    return Some(vec![]);
                }
                self.set(&mut s, &r, n);
                let u = self.tab.unit();
                return self.one(s, u);
            }
            // ---- readers and writers
            "core::io::write::Write::write_all" | "std::io::Write::write_all" | "std::io::impls::write_all" => {
                let r = self.arg_ref(a(0))?;
                let cur = self.deref_val(&st, a(0));
                let b = v(self, 1);
                let n = self.concat(cur, b);
                let mut s = st.clone();
                // write through nested references
                let inner = self.load(&st, r.0, &r.1);
                let tgt = match self.tab.k(inner).clone() {
                    K::Ref(x, y) => (x, y.to_vec()),
                    _ => r,
                };
                self.set(&mut s, &tgt, n);
                let u = self.tab.unit();
                let ok = self.tab.ok(u);
                let mut out = vec![(s, ok)];
                if !ga(0).starts_with("alloc::vec::Vec") {
                    let e = self.err_io();
                    out.push((st, e));
                }
                return Some(out);
            }
            "core::io::read::Read::read_exact" | "alloc::io::read::Read::read_exact" | "std::io::Read::read_exact" | "std::io::impls::read_exact" => {
                let buf = self.arg_ref(a(1))?;
                let cur = self.load(&st, buf.0, &buf.1);
                let n = self.tab.len(cur);
                let (ok, bad) = self.reader_take(&st, a(0), n)?;
                let mut out = vec![];
                if let Some((mut s, x)) = ok {
                    self.set(&mut s, &buf, x);
                    let u = self.tab.unit();
                    let t = self.tab.ok(u);
                    out.push((s, t));
                }
                if let Some(s) = bad {
                    let e = self.err_io();
                    out.push((s, e));
                }
                return Some(out);
            }
            "ed::Decode::decode" => {
                let t = strip(ga(0)).to_string();
                let k = Self::int_bytes(&t)?;
                // by-value reader: wrap in a temporary root when needed
                let n = self.tab.int(k);
                let rd = a(0);
                if self.arg_ref(rd).is_some() {
                    let (ok, bad) = self.reader_take(&st, rd, n)?;
                    let mut out = vec![];
                    if let Some((s, x)) = ok {
                        let d = self.from_bytes(x, &t, true);
                        let t = self.tab.ok(d);
                        out.push((s, t));
                    }
                    if let Some(s) = bad {
                        let e = self.err_io();
                        out.push((s, e));
                    }
                    return Some(out);
                }
                return None;
            }
            "ed::Encode::encode_into" => {
                let t = strip(ga(0)).to_string();
                Self::int_bytes(&t)?;
                let x = v(self, 0);
                let b = self.to_bytes(x, &t, true);
                let r = self.arg_ref(a(1))?;
                let cur = self.deref_val(&st, a(1));
                let n = self.concat(cur, b);
                let mut s = st.clone();
                let inner = self.load(&st, r.0, &r.1);
                let tgt = match self.tab.k(inner).clone() {
                    K::Ref(x, y) => (x, y.to_vec()),
                    _ => r,
                };
                self.set(&mut s, &tgt, n);
                let u = self.tab.unit();
                let ok = self.tab.ok(u);
                let e = self.err_io();
                return Some(vec![(s, ok), (st, e)]);
            }
            "ed::Encode::encoding_length" => {
                let t = strip(ga(0)).to_string();
                let k = Self::int_bytes(&t)?;
                let n = self.tab.int(k);
                let r = self.tab.ok(n);
                return self.one(st, r);
            }
            "integer_encoding::reader::VarIntReader::read_varint" => {
                let r = self.arg_ref(a(0))?;
                let cur = self.deref_val(&st, a(0));
                let inner = self.load(&st, r.0, &r.1);
                let tgt = match self.tab.k(inner).clone() {
                    K::Ref(x, y) => (x, y.to_vec()),
                    _ => r,
                };
                let ty = f.ga.last().map(|s| s.to_string()).unwrap_or_default();
                let val = self.top(&format!("varint_{ty}"), &[cur], &ty);
                let n = self.tab.op("varint_len", &[cur]);
                self.tab.set_ty(n, "u8");
                let l = self.tab.len(cur);
                let c = self.int_le(n, l);
                let mut s = st.clone();
                let mut out = vec![];
                if self.assume(&mut s, c, true) {
                    let rest = self.tab.slice(cur, n, l);
                    self.set(&mut s, &tgt, rest);
                    let t = self.tab.ok(val);
                    out.push((s, t));
                }
                let e = self.err_io();
                out.push((st, e));
                return Some(out);
            }
            "integer_encoding::writer::VarIntWriter::write_varint" => {
                let r = self.arg_ref(a(0))?;
                let cur = self.deref_val(&st, a(0));
                let inner = self.load(&st, r.0, &r.1);
                let tgt = match self.tab.k(inner).clone() {
                    K::Ref(x, y) => (x, y.to_vec()),
                    _ => r,
                };
                let x = v(self, 1);
                let b = self.tab.op("to_varint", &[x]);
                let n = self.concat(cur, b);
                let mut s = st.clone();
                self.set(&mut s, &tgt, n);
                let l = self.tab.op("varint_space", &[x]);
                let ok = self.tab.ok(l);
                let e = self.err_io();
                return Some(vec![(s, ok), (st, e)]);
            }
            "integer_encoding::varint::VarInt::encode_var_vec" => {
                let x = v(self, 0);
                let t = self.tab.op("to_varint", &[x]);
                return self.one(st, t);
            }
            "integer_encoding::varint::VarInt::required_space" => {
                let x = v(self, 0);
                let t = self.top("varint_space", &[x], "u8");
                return self.one(st, t);
            }
            "blake3::hash" => {
                let x = v(self, 0);
                let t = self.tab.op("blake3", &[x]);
                self.tab.set_ty(t, "[u8; 32]");
                return self.one(st, t);
            }
            "blake3::Hasher::new" => {
                let t = self.tab.agg("vec", 0, &[]);
                let t = self.tab.agg("blake3_state", 0, &[t]);
                return self.one(st, t);
            }
            "blake3::Hasher::update" => {
                let r = self.arg_ref(a(0))?;
                let cur = self.deref_val(&st, a(0));
                let acc = self.tab.field(cur, -1, 0);
                let b = v(self, 1);
                let n = self.concat(acc, b);
                let n = self.tab.agg("blake3_state", 0, &[n]);
                let mut s = st;
                self.set(&mut s, &r, n);
                return self.one(s, a(0));
            }
            "blake3::Hasher::finalize" => {
                let cur = v(self, 0);
                let acc = self.tab.field(cur, -1, 0);
                let t = self.tab.op("blake3", &[acc]);
                self.tab.set_ty(t, "[u8; 32]");
                return self.one(st, t);
            }
            _ => {}
        }
        let _ = nargs;
        None
    }
    pub fn default_of(&mut self, t: &str) -> Option<T> {
        if int_range(t).is_some() {
            return Some(self.tab.int(0));
        }
        if t.starts_with("alloc::vec::Vec") || t.starts_with("alloc::string::String") || t.starts_with("alloc::collections::vec_deque") || t.starts_with("alloc::collections::linked_list") {
            return Some(self.tab.agg("vec", 0, &[]));
        }
        if t.starts_with(OPT) {
            return Some(self.tab.none());
        }
        if t.starts_with("alloc::collections::btree") || t.starts_with("std::collections::hash") || t.starts_with("indexmap::") || t.starts_with("intmap::") {
            return Some(self.tab.agg("empty_map", 0, &[]));
        }
        if let Some(n) = array_len(t) {
            if t.starts_with("[u8;") && n <= 64 {
                let b = vec![0u8; n as usize];
                return Some(self.tab.mk(K::Bytes(b.into())));
            }
        }
        if t == "()" {
            return Some(self.tab.unit());
        }
        None
    }
    fn num(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> Outs {
        let m = f.norm.rsplit("::").next().unwrap().to_string();
        let ty = impl_ty(&f.name).unwrap_or("").to_string();
        let x = args.first().map(|x| self.deref_val(&st, *x)).unwrap_or(0);
        let y = args.get(1).map(|x| self.deref_val(&st, *x)).unwrap_or(0);
        if !args.is_empty() && int_range(&ty).is_some() && !m.starts_with("from_") {
            self.type_val(x, &ty);
        }
        let (lo, hi) = int_range(&ty).unwrap_or((i128::MIN, i128::MAX));
        match m.as_str() {
            "to_be_bytes" | "to_le_bytes" => {
                let t = self.to_bytes(x, &ty, m == "to_be_bytes");
                self.one(st, t)
            }
            "from_be_bytes" | "from_le_bytes" => {
                let t = self.from_bytes(x, &ty, m == "from_be_bytes");
                self.one(st, t)
            }
            "checked_add" | "checked_sub" | "checked_mul" => {
                let op = match m.as_str() {
                    "checked_add" => "Add",
                    "checked_sub" => "Sub",
                    _ => "Mul",
                };
                let r = self.arith(&st, op, x, y, &ty);
                if !matches!(self.tab.k(r), K::Int(_) | K::Lin(..)) {
                    self.tab.set_ty(r, "i128");
                }
                let c = self.in_range_op(&st, r, &ty);
                self.opt_if(&st, c, r)
            }
            "checked_div" | "checked_rem" => {
                let z = self.tab.int(0);
                let c = self.int_eq(y, z);
                let c = self.tab.not(c);
                let r = self.arith(&st, if m == "checked_div" { "Div" } else { "Rem" }, x, y, &ty);
                self.opt_if(&st, c, r)
            }
            "checked_shl" | "checked_shr" => {
                let bits = self.tab.int(Self::int_bytes(&ty)? * 8);
                let c = self.int_le(bits, y);
                let c = self.tab.not(c);
                let r = self.arith(&st, if m == "checked_shl" { "Shl" } else { "Shr" }, x, y, &ty);
                self.opt_if(&st, c, r)
            }
            "saturating_sub" if lo == 0 => {
                let c = self.int_le(y, x);
                if self.truth(&st, c) == Some(true) {
                    let r = self.tab.sub(x, y);
                    return self.one(st, r);
                }
                let c = self.int_le(x, y);
                if self.truth(&st, c) == Some(true) {
                    let r = self.tab.int(0);
                    return self.one(st, r);
                }
                let r = self.top("sat_sub", &[x, y], &ty);
                self.one(st, r)
            }
            "saturating_add" | "saturating_mul" if lo == 0 => {
                let r = if m == "saturating_add" { self.tab.add(x, y) } else { self.tab.mul(x, y) };
                let iv = self.ival(&st, r);
                if iv.0 >= lo && iv.1 <= hi {
                    return self.one(st, r);
                }
                let (x, y) = if x < y { (x, y) } else { (y, x) };
                let r = self.top(if m == "saturating_add" { "sat_add" } else { "sat_mul" }, &[x, y], &ty);
                self.one(st, r)
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let r = match m.as_str() {
                    "wrapping_add" => self.tab.add(x, y),
                    "wrapping_sub" => self.tab.sub(x, y),
                    _ => self.tab.mul(x, y),
                };
                let iv = self.ival(&st, r);
                if iv.0 >= lo && iv.1 <= hi {
                    return self.one(st, r);
                }
                let r = self.top(&m, &[x, y], &ty);
                self.one(st, r)
            }
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" => {
                let r = match m.as_str() {
                    "overflowing_add" => self.tab.add(x, y),
                    "overflowing_sub" => self.tab.sub(x, y),
                    _ => self.tab.mul(x, y),
                };
                let c = self.in_range_op(&st, r, &ty);
                let (p, q) = self.fork(&st, c);
                let mut out = vec![];
                if let Some(p) = p {
                    let z = self.tab.int(0);
                    let t = self.tab.tuple(&[r, z]);
                    out.push((p, t));
                }
                if let Some(q) = q {
                    let w = self.top(&m, &[x, y], &ty);
                    let o = self.tab.int(1);
                    let t = self.tab.tuple(&[w, o]);
                    out.push((q, t));
                }
                Some(out)
            }
            "is_power_of_two" => {
                let r = self.top("pow2?", &[x], "bool");
                self.one(st, r)
            }
            "count_ones" | "leading_zeros" | "trailing_zeros" | "trailing_ones" => {
                if let (Some(i), Some(b)) = (self.tab.as_int(x), Self::int_bytes(&ty)) {
                    if i >= 0 && b <= 8 {
                        let w = (b * 8) as u32;
                        let u = i as u64;
                        let r = match m.as_str() {
                            "count_ones" => u.count_ones(),
                            "leading_zeros" => u.leading_zeros() - (64 - w),
                            "trailing_zeros" => u.trailing_zeros().min(w),
                            _ => u.trailing_ones(),
                        };
                        let t = self.tab.int(r as i128);
                        return self.one(st, t);
                    }
                }
                let n = match m.as_str() {
                    "count_ones" => "popcnt",
                    "leading_zeros" => "clz",
                    "trailing_zeros" => "ctz",
                    _ => "ctone",
                };
                let w = Self::int_bytes(&ty).unwrap_or(8) * 8;
                let r = self.top(n, &[x], "u32");
                let mut s = st;
                let l = Lin { v: vec![(r, 1)], k: -w };
                let c = self.tab.le0(&l);
                self.assume(&mut s, c, true);
                self.one(s, r)
            }
            "pow" => {
                if let (Some(b), Some(e)) = (self.tab.as_int(x), self.tab.as_int(y)) {
                    if let Some(r) = b.checked_pow(e as u32) {
                        let t = self.tab.int(r);
                        return self.one(st, t);
                    }
                }
                let r = self.top("pow", &[x, y], "i128");
                let c = self.in_range(r, &ty);
                let mut s = st;
                if self.tab.as_int(x) == Some(2) {
                    // 2^y < 2^bits iff y < bits
                    let b = self.tab.int(Self::int_bytes(&ty)? * 8 - (lo < 0) as i128);
                    let c = self.int_le(b, y);
                    let c = self.tab.not(c);
                    if !self.need(cx, &mut s, c, "overflow", "pow") {
                        return Some(vec![]);
                    }
                    let r = self.top("pow", &[x, y], &ty);
                    return self.one(s, r);
                }
                if !self.need(cx, &mut s, c, "overflow", "pow") {
                    return Some(vec![]);
                }
                self.one(s, r)
            }
            "checked_pow" => {
                let r = self.top("pow", &[x, y], "i128");
                let c = self.in_range(r, &ty);
                self.opt_if(&st, c, r)
            }
            "abs_diff" | "div_ceil" | "next_power_of_two" | "ilog2" | "signum" | "abs" | "rotate_left" | "rotate_right" | "swap_bytes" | "is_negative"
            | "is_positive" => {
                let z = self.tab.int(0);
                let one = self.tab.int(1);
                match m.as_str() {
                    "is_negative" => {
                        let c = self.lt(&st, x, z);
                        return self.one(st, c);
                    }
                    "is_positive" => {
                        let c = self.lt(&st, z, x);
                        return self.one(st, c);
                    }
                    "abs_diff" => {
                        let a = self.top("max", &[x, y], &ty);
                        let b = self.top("min", &[x, y], &ty);
                        let r = self.tab.sub(a, b);
                        return self.one(st, r);
                    }
                    "div_ceil" => {
                        let k = self.tab.sub(y, one);
                        let s = self.tab.add(x, k);
                        let r = self.arith(&st, "Div", s, y, &ty);
                        return self.one(st, r);
                    }
                    _ => {}
                }
                let a: Vec<T> = args.iter().map(|x| self.deref_val(&st, *x)).collect();
                let t = self.top(&m, &a, &ty);
                self.one(st, t)
            }
            _ => {
                if int_range(&ty).is_some() && args.iter().all(|a| !matches!(self.tab.k(*a), K::Ref(..))) {
                    let t = self.tab.op(&format!("num::{m}"), args);
                    if m.starts_with("wrapping") || m.starts_with("saturating") {
                        self.tab.set_ty(t, &ty);
                    }
                    if !m.starts_with("checked") {
                        return self.one(st, t);
                    }
                }
                None
            }
        }
    }
    fn option(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> Outs {
        let m = f.norm.rsplit("::").next().unwrap().to_string();
        let x = self.deref_val(&st, args[0]);
        match m.as_str() {
            "is_some" | "is_none" => {
                let mut out = vec![];
                for (s, p) in self.opt_cases(&st, x) {
                    let b = self.boolv(p.is_some() == (m == "is_some"));
                    out.push((s, b));
                }
                Some(out)
            }
            "unwrap" | "expect" | "unwrap_unchecked" => {
                let known = self.variant(&st, x, OPT);
                let sd = if known == Some(1) { String::new() } else { format!("{m} of {}", self.show(x)) };
                self.site(cx, "unwrap", sd, known == Some(1));
                let s = self.split(&st, x, OPT, 1);
                match s {
                    Some(s) => {
                        let p = self.tab.field(x, 1, 0);
                        self.one(s, p)
                    }
                    None => Some(vec![]),
                }
            }
            "ok_or" => {
                let mut out = vec![];
                for (s, p) in self.opt_cases(&st, x) {
                    let r = match p {
                        Some(p) => self.tab.ok(p),
                        None => self.tab.err(args[1]),
                    };
                    out.push((s, r));
                }
                Some(out)
            }
            "unwrap_or" => {
                let mut out = vec![];
                for (s, p) in self.opt_cases(&st, x) {
                    out.push((s, p.unwrap_or(args[1])));
                }
                Some(out)
            }
            "unwrap_or_default" => {
                let t = f.ga.first().map(|s| s.to_string()).unwrap_or_default();
                let d = match self.default_of(&t) {
                    Some(d) => d,
                    None => self.sym(&format!("default {t}")),
                };
                let mut out = vec![];
                for (s, p) in self.opt_cases(&st, x) {
                    out.push((s, p.unwrap_or(d)));
                }
                Some(out)
            }
            "as_mut" | "as_deref_mut" => {
                let r = self.arg_ref(args[0]);
                let Some((r, p)) = r else { return self.one(st, x) };
                let mut out = vec![];
                for (s, c) in self.opt_cases(&st, x) {
                    let t = match c {
                        None => self.tab.none(),
                        Some(_) => {
                            let mut q = p.clone();
                            q.push(Pr::F(1, 0));
                            let rf = self.tab.mk(K::Ref(r, q.into()));
                            self.tab.some(rf)
                        }
                    };
                    out.push((s, t));
                }
                Some(out)
            }
            "take" | "replace" | "insert" => {
                let r = self.arg_ref(args[0])?;
                let new = if m == "take" { self.tab.none() } else { self.tab.some(args[1]) };
                let mut s = st;
                self.set(&mut s, &r, new);
                if m == "insert" {
                    let mut q = r.1.clone();
                    q.push(Pr::F(1, 0));
                    let t = self.tab.mk(K::Ref(r.0, q.into()));
                    return self.one(s, t);
                }
                self.one(s, x)
            }
            "get_or_insert" => {
                let r = self.arg_ref(args[0])?;
                let mut out = vec![];
                for (s, c) in self.opt_cases(&st, x) {
                    let mut s = s;
                    let v = match c {
                        Some(p) => p,
                        None => args[1],
                    };
                    let n = self.tab.some(v);
                    self.set(&mut s, &r, n);
                    let mut q = r.1.clone();
                    q.push(Pr::F(1, 0));
                    let t = self.tab.mk(K::Ref(r.0, q.into()));
                    out.push((s, t));
                }
                Some(out)
            }
            "or" | "and" | "xor" | "zip" => {
                let y = self.deref_val(&st, args[1]);
                let mut out = vec![];
                for (s, c) in self.opt_cases(&st, x) {
                    match (m.as_str(), c) {
                        ("or", Some(_)) => out.push((s, x)),
                        ("or", None) => out.push((s, y)),
                        ("and", Some(_)) => out.push((s, y)),
                        ("and", None) => {
                            let n = self.tab.none();
                            out.push((s, n))
                        }
                        ("zip", None) => {
                            let n = self.tab.none();
                            out.push((s, n))
                        }
                        ("zip", Some(p)) => {
                            for (s2, d) in self.opt_cases(&s, y) {
                                let r = match d {
                                    Some(q) => {
                                        let t = self.tab.tuple(&[p, q]);
                                        self.tab.some(t)
                                    }
                                    None => self.tab.none(),
                                };
                                out.push((s2, r));
                            }
                        }
                        _ => return None,
                    }
                }
                Some(out)
            }
            "transpose" => {
                let mut out = vec![];
                for (s, c) in self.opt_cases(&st, x) {
                    match c {
                        None => {
                            let n = self.tab.none();
                            let t = self.tab.ok(n);
                            out.push((s, t));
                        }
                        Some(r) => {
                            for (s2, d) in self.res_cases(&s, r) {
                                let t = match d {
                                    Ok(p) => {
                                        let q = self.tab.some(p);
                                        self.tab.ok(q)
                                    }
                                    Err(e) => self.tab.err(e),
                                };
                                out.push((s2, t));
                            }
                        }
                    }
                }
                Some(out)
            }
            "flatten" => {
                let mut out = vec![];
                for (s, c) in self.opt_cases(&st, x) {
                    let t = match c {
                        None => self.tab.none(),
                        Some(p) => p,
                    };
                    out.push((s, t));
                }
                Some(out)
            }
            "iter" | "into_iter" | "iter_mut" => {
                let r = if m == "iter_mut" { self.arg_ref(args[0]) } else { None };
                let mut out = vec![];
                for (s, c) in self.opt_cases(&st, x) {
                    let o = match (c, &r) {
                        (None, _) => self.tab.none(),
                        (Some(_), Some((r, p))) => {
                            let mut q = p.clone();
                            q.push(Pr::F(1, 0));
                            let rf = self.tab.mk(K::Ref(*r, q.into()));
                            self.tab.some(rf)
                        }
                        (Some(v), None) => self.tab.some(v),
                    };
                    out.push((s, self.tab.agg("sa_models::OptIter", 0, &[o])));
                }
                Some(out)
            }
            _ => None,
        }
    }
    fn result(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> Outs {
        let m = f.norm.rsplit("::").next().unwrap().to_string();
        let x = self.deref_val(&st, args[0]);
        let mut out = vec![];
        match m.as_str() {
            "is_ok" | "is_err" => {
                for (s, p) in self.res_cases(&st, x) {
                    let b = self.boolv(p.is_ok() == (m == "is_ok"));
                    out.push((s, b));
                }
            }
            "unwrap" | "expect" | "unwrap_err" | "expect_err" => {
                let want = if m.ends_with("_err") { 1 } else { 0 };
                let known = self.variant(&st, x, RES);
                let sd = if known == Some(want) { String::new() } else { format!("{m} of {}", self.show(x)) };
                self.site(cx, "unwrap", sd, known == Some(want));
                if let Some(s) = self.split(&st, x, RES, want) {
                    let p = self.tab.field(x, want as i32, 0);
                    out.push((s, p));
                }
            }
            "ok" | "err" => {
                for (s, p) in self.res_cases(&st, x) {
                    let t = match (p, m.as_str()) {
                        (Ok(p), "ok") => self.tab.some(p),
                        (Err(e), "err") => self.tab.some(e),
                        _ => self.tab.none(),
                    };
                    out.push((s, t));
                }
            }
            "unwrap_or" => {
                for (s, p) in self.res_cases(&st, x) {
                    out.push((s, p.unwrap_or(args[1])));
                }
            }
            "unwrap_or_default" => {
                let t = f.ga.first().map(|s| s.to_string()).unwrap_or_default();
                let d = match self.default_of(&t) {
                    Some(d) => d,
                    None => self.sym(&format!("default {t}")),
                };
                for (s, p) in self.res_cases(&st, x) {
                    out.push((s, p.unwrap_or(d)));
                }
            }
            "transpose" => {
                for (s, p) in self.res_cases(&st, x) {
                    match p {
                        Err(e) => {
                            let r = self.tab.err(e);
                            let t = self.tab.some(r);
                            out.push((s, t));
                        }
                        Ok(o) => {
                            for (s2, q) in self.opt_cases(&s, o) {
                                let t = match q {
                                    Some(q) => {
                                        let r = self.tab.ok(q);
                                        self.tab.some(r)
                                    }
                                    None => self.tab.none(),
                                };
                                out.push((s2, t));
                            }
                        }
                    }
                }
            }
            "and" | "or" => {
                for (s, p) in self.res_cases(&st, x) {
                    let t = match (&p, m.as_str()) {
                        (Ok(_), "and") => args[1],
                        (Err(_), "or") => args[1],
                        _ => x,
                    };
                    out.push((s, t));
                }
            }
            _ => return None,
        }
        Some(out)
    }
    fn iter(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> Outs {
        let m = f.norm.rsplit("::").next().unwrap().to_string();
        let _ = cx;
        match m.as_str() {
            "into_iter" => {
                let t = self.as_iter(&st, args[0]);
                // `for x in &mut iter`
                if let K::Ref(r, p) = self.tab.k(args[0]).clone() {
                    let x = self.load(&st, r, &p);
                    if self.ws_iter(x).is_some() {
                        return self.one(st, args[0]);
                    }
                    if let Some(n) = self.agg_name(x) {
                        if n.starts_with("sa_models::") || n.starts_with("core::ops::range") {
                            return self.one(st, args[0]);
                        }
                    }
                }
                self.one(st, t)
            }
            "map" | "filter" | "filter_map" | "inspect" | "map_while" => {
                let it = self.keep_iter(&st, args[0]);
                let n = match m.as_str() {
                    "map" => "sa_models::MMap",
                    "filter" => "sa_models::MFilter",
                    "filter_map" => "sa_models::MFilterMap",
                    "map_while" => "sa_models::MMapWhile",
                    _ => "sa_models::MInspect",
                };
                let t = self.tab.agg(n, 0, &[it, args[1]]);
                self.one(st, t)
            }
            "take_while" | "skip_while" => {
                let it = self.keep_iter(&st, args[0]);
                let z = self.tab.int(0);
                let t = self.tab.agg(if m == "take_while" { "sa_models::MTakeWhile" } else { "sa_models::MSkipWhile" }, 0, &[it, args[1], z]);
                self.one(st, t)
            }
            "rev" => {
                let it = self.keep_iter(&st, args[0]);
                let t = self.tab.agg("sa_models::MRev", 0, &[it]);
                self.one(st, t)
            }
            "enumerate" => {
                let it = self.keep_iter(&st, args[0]);
                let z = self.tab.int(0);
                let t = self.tab.agg("sa_models::MEnum", 0, &[it, z]);
                self.one(st, t)
            }
            "zip" => {
                let it = self.keep_iter(&st, args[0]);
                let b = self.keep_iter(&st, args[1]);
                let t = self.tab.agg("sa_models::MZip", 0, &[it, b]);
                self.one(st, t)
            }
            "chain" => {
                let it = self.keep_iter(&st, args[0]);
                let b = self.keep_iter(&st, args[1]);
                let one = self.tab.int(1);
                let t = self.tab.agg("sa_models::MChain", 0, &[it, b, one]);
                self.one(st, t)
            }
            "take" | "skip" | "step_by" => {
                let it = self.keep_iter(&st, args[0]);
                let n = self.deref_val(&st, args[1]);
                if m == "step_by" {
                    let x = self.tab.op("step_by", &[it, n]);
                    let t = self.viter(x, &st);
                    return self.one(st, t);
                }
                if let K::Agg(_, _, a) = self.tab.k(it).clone() {
                    if a.len() == 3 && self.agg_name(it) == Some(VITER) {
                        // a part of a collection is the part
                        let e = self.tab.add(a[1], n);
                        let c = self.int_le(e, a[2]);
                        let (y, nn) = self.fork(&st, c);
                        let mut out = vec![];
                        for (s, within) in [(y, true), (nn, false)] {
                            if let Some(s) = s {
                                let r = match (m.as_str(), within) {
                                    ("take", true) => [a[0], a[1], e],
                                    ("take", false) => [a[0], a[1], a[2]],
                                    (_, true) => [a[0], e, a[2]],
                                    (_, false) => [a[0], a[2], a[2]],
                                };
                                let t = self.tab.agg(VITER, 0, &r);
                                out.push((s, t));
                            }
                        }
                        return Some(out);
                    }
                }
                let t = self.tab.agg(if m == "take" { "sa_models::MTake" } else { "sa_models::MSkip" }, 0, &[it, n]);
                self.one(st, t)
            }
            "peekable" => {
                let it = self.keep_iter(&st, args[0]);
                let n = self.tab.none();
                let t = self.tab.agg("sa_models::MPeek", 0, &[it, n]);
                self.one(st, t)
            }
            "flat_map" | "flatten" | "scan" | "cycle" => {
                let it = self.keep_iter(&st, args[0]);
                let mut a = vec![it];
                for x in &args[1..] {
                    let y = self.resolve(&st, *x, 3);
                    a.push(y);
                }
                let x = self.tab.op(&format!("it_{m}"), &a);
                let t = self.viter(x, &st);
                self.one(st, t)
            }
            "once" => {
                let v = self.tab.agg("vec", 0, &[args[0]]);
                let t = self.viter(v, &st);
                self.one(st, t)
            }
            "empty" => {
                let v = self.tab.agg("vec", 0, &[]);
                let t = self.viter(v, &st);
                self.one(st, t)
            }
            "repeat" | "repeat_n" => {
                if args.len() == 2 {
                    let v = self.tab.op("repeat", args);
                    let t = self.viter(v, &st);
                    return self.one(st, t);
                }
                None
            }
            "len" => {
                let x = self.deref_val(&st, args[0]);
                match self.tab.k(x).clone() {
                    K::Agg(n, _, a) if self.tab.str(n) == VITER => {
                        let t = self.tab.sub(a[2], a[1]);
                        self.one(st, t)
                    }
                    K::Agg(n, _, a) if self.tab.str(n) == "core::ops::range::Range" => {
                        let t = self.tab.sub(a[1], a[0]);
                        self.one(st, t)
                    }
                    _ => None,
                }
            }
            "as_slice" => {
                let x = self.deref_val(&st, args[0]);
                match self.tab.k(x).clone() {
                    K::Agg(n, _, a) if self.tab.str(n) == VITER => {
                        let t = self.tab.slice(a[0], a[1], a[2]);
                        self.one(st, t)
                    }
                    _ => None,
                }
            }
            "sum" if f.ga.last().is_some_and(|t| self.models.contains_key(&format!("iter_sum_{}", strip(t)))) => None,
            "eq" | "cmp" | "lt" | "max" | "min" | "sum" | "product" | "max_by_key" | "min_by_key" | "max_by" | "min_by" | "reduce" | "ne" | "partial_cmp" => {
                let a: Vec<T> = args.iter().map(|x| self.resolve(&st, *x, 4)).collect();
                if m == "cmp" {
                    let (x, y) = (self.iter_elems(a[0]), self.iter_elems(a[1]));
                    return self.cmp_gen(&st, x, y);
                }
                if m == "eq" || m == "ne" {
                    let (x, y) = (self.iter_elems(a[0]), self.iter_elems(a[1]));
                    let e = self.val_eq(&st, x, y);
                    let e = if m == "ne" { self.tab.not(e) } else { e };
                    return self.one(st, e);
                }
                let a: Vec<T> = a.iter().map(|x| self.iter_elems(*x)).collect();
                let t = self.tab.op(&format!("it_{m}"), &a);
                if m == "sum" || m == "product" {
                    if let Some(t0) = f.ga.last() {
                        let ty = strip(t0).to_string();
                        self.tab.set_ty(t, &ty);
                    }
                    // a debug-build sum can overflow
                    self.site(cx, "sum", m.clone(), false);
                }
                self.one(st, t)
            }
            "size_hint" => {
                let x = self.deref_val(&st, args[0]);
                let t = self.tab.op("size_hint", &[x]);
                self.one(st, t)
            }
            _ => None,
        }
    }
    /// a freshly built whole-collection iterator stands for its collection
    fn iter_elems(&mut self, x: T) -> T {
        if let K::Agg(n, _, a) = self.tab.k(x).clone() {
            if self.tab.str(n) == VITER {
                let l = self.tab.len(a[0]);
                if self.tab.as_int(a[1]) == Some(0) && a[2] == l {
                    return a[0];
                }
            }
        }
        x
    }
    fn keep_iter(&mut self, st: &St, x: T) -> T {
        if let K::Ref(r, p) = self.tab.k(x).clone() {
            let v = self.load(st, r, &p);
            if let Some(n) = self.agg_name(v) {
                if n.starts_with("sa_models::") || n.starts_with("core::ops::range") {
                    return x;
                }
            }
            if self.ws_iter(v).is_some() {
                return x;
            }
        }
        self.as_iter(st, x)
    }
    fn vec(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> Outs {
        let m = f.norm.rsplit("::").next().unwrap().to_string();
        let z = self.tab.int(0);
        let one = self.tab.int(1);
        if args.is_empty() {
            if m == "new" {
                let t = self.tab.agg("vec", 0, &[]);
                return self.one(st, t);
            }
            return None;
        }
        let x = self.deref_val(&st, args[0]);
        let unit = self.tab.unit();
        match m.as_str() {
            "with_capacity" => {
                self.alloc_site(cx, &st, x, "with_capacity");
                let t = self.tab.agg("vec", 0, &[]);
                self.one(st, t)
            }
            "reserve" | "reserve_exact" => {
                let n = self.deref_val(&st, args[1]);
                self.alloc_site(cx, &st, n, "reserve");
                self.one(st, unit)
            }
            "shrink_to_fit" => self.one(st, unit),
            "len" => {
                let t = self.tab.len(x);
                self.one(st, t)
            }
            "is_empty" => {
                let l = self.tab.len(x);
                let c = self.int_eq(l, z);
                self.one(st, c)
            }
            "as_mut_slice" => self.one(st, args[0]),
            "push" | "push_back" => {
                let r = self.arg_ref(args[0])?;
                let n = self.push(x, args[1]);
                let mut s = st;
                self.store_deep(&mut s, r, n);
                self.one(s, unit)
            }
            "push_str" | "push_front" | "insert_str" => {
                let r = self.arg_ref(args[0])?;
                let y = self.deref_val(&st, args[1]);
                let n = if m == "push_str" {
                    self.concat(x, y)
                } else {
                    self.tab.op(&m, &[x, y])
                };
                let mut s = st;
                self.store_deep(&mut s, r, n);
                self.one(s, unit)
            }
            "extend_from_slice" | "append" => {
                let r = self.arg_ref(args[0])?;
                let y = self.deref_val(&st, args[1]);
                let n = self.concat(x, y);
                let mut s = st;
                self.store_deep(&mut s, r, n);
                if m == "append" {
                    let q = self.arg_ref(args[1])?;
                    let e = self.tab.agg("vec", 0, &[]);
                    self.store_deep(&mut s, q, e);
                }
                self.one(s, unit)
            }
            "clear" => {
                let r = self.arg_ref(args[0])?;
                let e = self.tab.agg("vec", 0, &[]);
                let mut s = st;
                self.store_deep(&mut s, r, e);
                self.one(s, unit)
            }
            "truncate" => {
                let r = self.arg_ref(args[0])?;
                let n = self.deref_val(&st, args[1]);
                let l = self.tab.len(x);
                let c = self.int_le(n, l);
                let (p, q) = self.fork(&st, c);
                let mut out = vec![];
                if let Some(mut p) = p {
                    let t = self.tab.slice(x, z, n);
                    self.store_deep(&mut p, r.clone(), t);
                    out.push((p, unit));
                }
                if let Some(q) = q {
                    out.push((q, unit));
                }
                Some(out)
            }
            "resize" => {
                let r = self.arg_ref(args[0])?;
                let n = self.deref_val(&st, args[1]);
                self.alloc_site(cx, &st, n, "resize");
                let t = self.tab.op("resize", &[x, n, args[2]]);
                let mut s = st;
                self.store_deep(&mut s, r, t);
                self.one(s, unit)
            }
            "first" | "last" | "front" | "back" | "first_mut" | "last_mut" | "front_mut" | "back_mut" => {
                let l = self.tab.len(x);
                let c = self.int_eq(l, z);
                let c = self.tab.not(c);
                let i = if m.starts_with("first") || m.starts_with("front") { z } else { self.tab.sub(l, one) };
                let v = match (m.ends_with("_mut"), self.arg_ref(args[0])) {
                    (true, Some((r, mut p))) => {
                        p.push(Pr::Ix(i));
                        self.tab.mk(K::Ref(r, p.into()))
                    }
                    _ => self.tab.ix(x, i),
                };
                self.opt_if(&st, c, v)
            }
            "split_last" | "split_first" => {
                let l = self.tab.len(x);
                let c = self.int_eq(l, z);
                let c = self.tab.not(c);
                let l1 = self.tab.sub(l, one);
                let v = if m == "split_last" {
                    let e = self.tab.ix(x, l1);
                    let s = self.tab.slice(x, z, l1);
                    self.tab.tuple(&[e, s])
                } else {
                    let e = self.tab.ix(x, z);
                    let s = self.tab.slice(x, one, l);
                    self.tab.tuple(&[e, s])
                };
                self.opt_if(&st, c, v)
            }
            "get" | "get_mut" => {
                let i = self.deref_val(&st, args[1]);
                let l = self.tab.len(x);
                if let Some((f0, t0)) = self.range_bounds(&st, i, l) {
                    let c1 = self.int_le(f0, t0);
                    let c2 = self.int_le(t0, l);
                    let c = self.and(c1, c2);
                    let t = match (m == "get_mut", self.arg_ref(args[0])) {
                        (true, Some((r, mut p))) => {
                            p.push(Pr::Sl(f0, t0));
                            self.tab.mk(K::Ref(r, p.into()))
                        }
                        _ => self.tab.slice(x, f0, t0),
                    };
                    return self.opt_if(&st, c, t);
                }
                self.type_val(i, "usize");
                let c = self.int_le(l, i);
                let c = self.tab.not(c);
                let t = match (m == "get_mut", self.arg_ref(args[0])) {
                    (true, Some((r, mut p))) => {
                        p.push(Pr::Ix(i));
                        self.tab.mk(K::Ref(r, p.into()))
                    }
                    _ => self.tab.ix(x, i),
                };
                self.opt_if(&st, c, t)
            }
            "pop" | "pop_back" | "pop_front" => {
                let r = self.arg_ref(args[0])?;
                let l = self.tab.len(x);
                let c = self.int_eq(l, z);
                let (e, ne) = self.fork(&st, c);
                let mut out = vec![];
                if let Some(mut s) = ne {
                    let l1 = self.tab.sub(l, one);
                    let (v, rest) = if m == "pop_front" {
                        (self.tab.ix(x, z), self.tab.slice(x, one, l))
                    } else {
                        let rest = match self.tab.k(x).clone() {
                            K::Push(b, _) => b,
                            _ => self.tab.slice(x, z, l1),
                        };
                        (self.tab.ix(x, l1), rest)
                    };
                    self.store_deep(&mut s, r, rest);
                    let t = self.tab.some(v);
                    out.push((s, t));
                }
                if let Some(s) = e {
                    let t = self.tab.none();
                    out.push((s, t));
                }
                Some(out)
            }
            "remove" | "swap_remove" => {
                let r = self.arg_ref(args[0])?;
                let i = self.deref_val(&st, args[1]);
                let l = self.tab.len(x);
                let c = self.int_le(l, i);
                let c = self.tab.not(c);
                let mut s = st;
                if f.norm.contains("VecDeque") {
                    return None;
                }
                if !self.need(cx, &mut s, c, "index", "remove") {
                    return Some(vec![]);
                }
                let v = self.tab.ix(x, i);
                let n = if m == "remove" {
                    let i1 = self.tab.add(i, one);
                    let a = self.tab.slice(x, z, i);
                    let b = self.tab.slice(x, i1, l);
                    self.concat(a, b)
                } else {
                    self.tab.op("swap_remove", &[x, i])
                };
                self.store_deep(&mut s, r, n);
                self.one(s, v)
            }
            "insert" => {
                if f.norm.contains("VecDeque") {
                    return None;
                }
                let r = self.arg_ref(args[0])?;
                let i = self.deref_val(&st, args[1]);
                let l = self.tab.len(x);
                let c = self.int_le(i, l);
                let mut s = st;
                if !self.need(cx, &mut s, c, "index", "insert") {
                    return Some(vec![]);
                }
                let a = self.tab.slice(x, z, i);
                let b = self.tab.slice(x, i, l);
                let e = self.tab.agg("vec", 0, &[args[2]]);
                let n = self.concat(a, e);
                let n = self.concat(n, b);
                self.store_deep(&mut s, r, n);
                self.one(s, unit)
            }
            "split_at" | "split_off" | "split_at_mut" => {
                let i = self.deref_val(&st, args[1]);
                let l = self.tab.len(x);
                let c = self.int_le(i, l);
                let mut s = st;
                if !self.need(cx, &mut s, c, "slice", &m) {
                    return Some(vec![]);
                }
                if m == "split_at_mut" {
                    return None;
                }
                let a = self.tab.slice(x, z, i);
                let b = self.tab.slice(x, i, l);
                if m == "split_off" {
                    let r = self.arg_ref(args[0])?;
                    self.store_deep(&mut s, r, a);
                    return self.one(s, b);
                }
                let t = self.tab.tuple(&[a, b]);
                self.one(s, t)
            }
            "split_at_checked" => {
                let i = self.deref_val(&st, args[1]);
                let l = self.tab.len(x);
                let c = self.int_le(i, l);
                let a = self.tab.slice(x, z, i);
                let b = self.tab.slice(x, i, l);
                let t = self.tab.tuple(&[a, b]);
                self.opt_if(&st, c, t)
            }
            "drain" => {
                let r = self.arg_ref(args[0])?;
                let l = self.tab.len(x);
                let (f0, t0) = self.range_bounds(&st, args[1], l)?;
                let c1 = self.int_le(f0, t0);
                let c2 = self.int_le(t0, l);
                let c = self.and(c1, c2);
                let mut s = st;
                if !self.need(cx, &mut s, c, "slice", "drain") {
                    return Some(vec![]);
                }
                let a = self.tab.slice(x, z, f0);
                let b = self.tab.slice(x, t0, l);
                let n = self.concat(a, b);
                let n = if f0 == z && t0 == l { self.tab.agg("vec", 0, &[]) } else { n };
                let d = self.tab.slice(x, f0, t0);
                self.store_deep(&mut s, r, n);
                let it = self.viter(d, &s);
                self.one(s, it)
            }
            "iter" | "into_iter" | "chars" | "bytes" => {
                let t = self.viter(x, &st);
                self.one(st, t)
            }
            "iter_mut" => {
                let t = self.viter(args[0], &st);
                self.one(st, t)
            }
            "windows" | "chunks_exact" => {
                let n = self.deref_val(&st, args[1]);
                let mut s = st;
                let c = self.int_eq(n, z);
                let c = self.tab.not(c);
                if !self.need(cx, &mut s, c, "panic", &m) {
                    return Some(vec![]);
                }
                let t = self.tab.agg(if m == "windows" { "sa_models::MWindows" } else { "sa_models::MChunksExact" }, 0, &[x, z, n]);
                self.one(s, t)
            }
            "chunks" => {
                let n = self.deref_val(&st, args[1]);
                let o = self.tab.op("chunks", &[x, n]);
                let t = self.viter(o, &st);
                self.one(st, t)
            }
            "copy_from_slice" | "clone_from_slice" => {
                let y = self.deref_val(&st, args[1]);
                let (l1, l2) = (self.tab.len(x), self.tab.len(y));
                let c = self.int_eq(l1, l2);
                let mut s = st;
                if !self.need(cx, &mut s, c, "slice", &m) {
                    return Some(vec![]);
                }
                let r = self.arg_ref(args[0])?;
                self.store_deep(&mut s, r, y);
                self.one(s, unit)
            }
            "contains" => {
                let y = self.deref_val(&st, args[1]);
                let t = self.top("contains", &[x, y], "bool");
                self.one(st, t)
            }
            "starts_with" | "ends_with" => {
                let y = self.deref_val(&st, args[1]);
                let t = self.top(&m, &[x, y], "bool");
                self.one(st, t)
            }
            "concat" | "join" => {
                if m == "concat" {
                    if let Some(e) = self.elems(x) {
                        let mut acc = self.tab.agg("vec", 0, &[]);
                        for y in e {
                            let y = self.deref_val(&st, y);
                            acc = self.concat(acc, y);
                        }
                        return self.one(st, acc);
                    }
                }
                let a: Vec<T> = args.iter().map(|x| self.resolve(&st, *x, 3)).collect();
                let t = self.tab.op(&format!("slice_{m}"), &a);
                self.one(st, t)
            }
            "reverse" | "sort" | "sort_unstable" | "dedup" | "sort_by_key" | "sort_unstable_by_key" | "sort_by" | "sort_unstable_by" | "dedup_by_key" | "swap"
            | "fill" | "rotate_left" | "rotate_right" => {
                let r = self.arg_ref(args[0])?;
                let mut a = vec![x];
                for y in &args[1..] {
                    let y = self.resolve(&st, *y, 3);
                    a.push(y);
                }
                let mut s = st;
                if m == "swap" {
                    let l = self.tab.len(x);
                    for i in [a[1], a[2]] {
                        let c = self.int_le(l, i);
                        let c = self.tab.not(c);
                        if !self.need(cx, &mut s, c, "index", "swap") {
                            return Some(vec![]);
                        }
                    }
                    let (p, q) = (self.tab.ix(x, a[1]), self.tab.ix(x, a[2]));
                    let t = self.tab.upd(x, Pr::Ix(a[1]), q);
                    let t = self.tab.upd(t, Pr::Ix(a[2]), p);
                    self.store_deep(&mut s, r, t);
                    return self.one(s, unit);
                }
                let nm = match m.as_str() {
                    "sort_unstable" => "sort",
                    k => k,
                };
                let t = self.tab.op(nm, &a);
                if !nm.starts_with("dedup") {
                    // same length as before
                    let l = self.tab.len(t);
                    let l0 = self.tab.len(x);
                    let c = self.int_eq(l, l0);
                    self.assume(&mut s, c, true);
                } else {
                    let l = self.tab.len(t);
                    let l0 = self.tab.len(x);
                    let c = self.int_le(l, l0);
                    self.assume(&mut s, c, true);
                }
                self.store_deep(&mut s, r, t);
                self.one(s, unit)
            }
            "binary_search" | "binary_search_by" | "binary_search_by_key" => {
                let mut a = vec![x];
                for y in &args[1..] {
                    let y = self.resolve(&st, *y, 3);
                    a.push(y);
                }
                let l = self.tab.len(x);
                let i = self.top("bs_at", &a, "usize");
                let f0 = self.top("bs_found", &a, "bool");
                let (p, q) = self.fork(&st, f0);
                let mut out = vec![];
                if let Some(mut p) = p {
                    let c = self.int_le(l, i);
                    self.assume(&mut p, c, false);
                    let t = self.tab.ok(i);
                    out.push((p, t));
                }
                if let Some(mut q) = q {
                    let c = self.int_le(i, l);
                    self.assume(&mut q, c, true);
                    let t = self.tab.err(i);
                    out.push((q, t));
                }
                Some(out)
            }
            _ => None,
        }
    }
    fn store_deep(&mut self, st: &mut St, r: (Root, Vec<Pr>), v: T) {
        let mut r = r;
        for _ in 0..6 {
            let cur = self.load(st, r.0, &r.1);
            match self.tab.k(cur).clone() {
                K::Ref(a, b) => r = (a, b.to_vec()),
                _ => break,
            }
        }
        self.store(st, r.0, &r.1, v);
    }
    /// keyed collections: has/get/insert/remove algebra
    fn map_has(&mut self, st: &St, m: T, k: T) -> T {
        match self.tab.k(m).clone() {
            K::Agg(n, _, _) if self.tab.str(n) == "empty_map" => return self.tab.int(0),
            K::Op(n, a) => {
                let n = self.tab.str(n).to_string();
                if n == "minsert" || n == "sinsert" {
                    let e = self.val_eq(st, a[1], k);
                    match self.truth(st, e) {
                        Some(true) => return self.tab.int(1),
                        Some(false) => return self.map_has(st, a[0], k),
                        None => {}
                    }
                }
                if n == "mremove" {
                    let e = self.val_eq(st, a[1], k);
                    match self.truth(st, e) {
                        Some(true) => return self.tab.int(0),
                        Some(false) => return self.map_has(st, a[0], k),
                        None => {}
                    }
                }
            }
            _ => {}
        }
        let t = self.top("has", &[m, k], "bool");
        t
    }
    fn map_get(&mut self, st: &St, m: T, k: T) -> T {
        if let K::Op(n, a) = self.tab.k(m).clone() {
            let n = self.tab.str(n).to_string();
            if n == "minsert" {
                let e = self.val_eq(st, a[1], k);
                match self.truth(st, e) {
                    Some(true) => return a[2],
                    Some(false) => return self.map_get(st, a[0], k),
                    None => {}
                }
            }
        }
        self.tab.op("get", &[m, k])
    }
    fn map(&mut self, cx: &Cx, st: St, m: &str, is_set: bool, seq: bool, args: &[T]) -> Outs {
        let _ = cx;
        if args.is_empty() {
            if m == "new" {
                let t = self.tab.agg("empty_map", 0, &[]);
                return self.one(st, t);
            }
            return None;
        }
        let unit = self.tab.unit();
        let x = self.deref_val(&st, args[0]);
        let k = args.get(1).map(|k| self.resolve(&st, *k, 4)).unwrap_or(unit);
        match m {
            "with_capacity" => {
                self.alloc_site(cx, &st, x, "map with_capacity");
                let t = self.tab.agg("empty_map", 0, &[]);
                self.one(st, t)
            }
            "contains" | "contains_key" => {
                let t = self.map_has(&st, x, k);
                self.one(st, t)
            }
            "get" | "get_mut" => {
                let c = self.map_has(&st, x, k);
                let v = match (m == "get_mut", self.arg_ref(args[0])) {
                    (true, Some(_)) => {
                        // a mutable slot: opaque update of the map
                        let (p, q) = self.fork(&st, c);
                        let mut out = vec![];
                        if let Some(mut p) = p {
                            let r = self.arg_ref(args[0]).unwrap();
                            let v = self.map_get(&st, x, k);
                            let slot = self.new_root_cached(cx, "map slot");
                            let mm = self.tab.op("mremove", &[x, k]);
                            let mm = self.tab.op("mutated", &[mm, k]);
                            self.store_deep(&mut p, r, mm);
                            Rc::make_mut(&mut p.vals).insert(slot, v);
                            let rf = self.tab.mk(K::Ref(slot, Rc::from(vec![])));
                            let t = self.tab.some(rf);
                            out.push((p, t));
                        }
                        if let Some(q) = q {
                            let t = self.tab.none();
                            out.push((q, t));
                        }
                        return Some(out);
                    }
                    _ => self.map_get(&st, x, k),
                };
                self.opt_if(&st, c, v)
            }
            "insert" => {
                let r = self.arg_ref(args[0])?;
                let c = self.map_has(&st, x, k);
                if is_set {
                    let n = self.tab.op("sinsert", &[x, k]);
                    let (p, q) = self.fork(&st, c);
                    let mut out = vec![];
                    if let Some(p) = p {
                        let t = self.tab.int(0);
                        out.push((p, t));
                    }
                    if let Some(mut q) = q {
                        self.store_deep(&mut q, r, n);
                        let t = self.tab.int(1);
                        out.push((q, t));
                    }
                    return Some(out);
                }
                let val = self.resolve(&st, args[2], 4);
                // what was there under the same key does not matter any more
                let mut y = x;
                loop {
                    match self.tab.opname(y) {
                        Some(("minsert", a)) if a[1] == k => y = a[0],
                        Some(("mremove", a)) if a[1] == k && !seq => y = a[0],
                        _ => break,
                    }
                }
                let n = self.tab.op("minsert", &[y, k, val]);
                let old = self.map_get(&st, x, k);
                let (p, q) = self.fork(&st, c);
                let mut out = vec![];
                if let Some(mut p) = p {
                    self.store_deep(&mut p, r.clone(), n);
                    let t = self.tab.some(old);
                    out.push((p, t));
                }
                if let Some(mut q) = q {
                    self.store_deep(&mut q, r, n);
                    let t = self.tab.none();
                    out.push((q, t));
                }
                Some(out)
            }
            "remove" | "shift_remove" | "swap_remove" => {
                let r = self.arg_ref(args[0])?;
                let c = self.map_has(&st, x, k);
                let old = self.map_get(&st, x, k);
                let n = self.tab.op("mremove", &[x, k]);
                let (p, q) = self.fork(&st, c);
                let mut out = vec![];
                if let Some(mut p) = p {
                    self.store_deep(&mut p, r, n);
                    let t = if is_set { self.tab.int(1) } else { self.tab.some(old) };
                    out.push((p, t));
                }
                if let Some(q) = q {
                    let t = if is_set { self.tab.int(0) } else { self.tab.none() };
                    out.push((q, t));
                }
                Some(out)
            }
            "len" => {
                let t = self.tab.op("mlen", &[x]);
                self.tab.set_ty(t, "usize");
                if let Some("empty_map") = self.agg_name(x) {
                    let z = self.tab.int(0);
                    return self.one(st, z);
                }
                self.one(st, t)
            }
            "is_empty" => {
                if let Some("empty_map") = self.agg_name(x) {
                    let z = self.tab.int(1);
                    return self.one(st, z);
                }
                let t = self.tab.op("mlen", &[x]);
                self.tab.set_ty(t, "usize");
                let z = self.tab.int(0);
                let c = self.int_eq(t, z);
                self.one(st, c)
            }
            "clear" => {
                let r = self.arg_ref(args[0])?;
                let e = self.tab.agg("empty_map", 0, &[]);
                let mut s = st;
                self.store_deep(&mut s, r, e);
                self.one(s, unit)
            }
            "iter" | "into_iter" | "keys" | "values" | "into_keys" | "into_values" => {
                // (same as `for e in &map`)
                let e = if is_set {
                    x
                } else if m == "keys" || m == "into_keys" {
                    self.tab.op("keys", &[x])
                } else if m.contains("values") {
                    self.tab.op("values", &[x])
                } else {
                    x
                };
                let t = self.viter(e, &st);
                self.one(st, t)
            }
            _ => None,
        }
    }
    fn new_root_cached(&mut self, cx: &Cx, what: &str) -> Root {
        let key = format!("{what}@{}", cx.node);
        for (r, n) in &self.rootname {
            if *n == key {
                return *r;
            }
        }
        self.new_root(key)
    }
    /// functions whose semantics is a model body (or a call of the closure)
    pub fn model(&mut self, cx: &Cx, st: &St, f: &Rc<FnRef>, args: &[T]) -> Option<(Result<usize, T>, Vec<T>)> {
        let name: &str = &f.norm;
        let _ = cx;
        let get = |e: &Self, n: &str| e.models.get(n).copied();
        // iterator protocol on a model value
        let m = name.rsplit("::").next().unwrap();
        let is_it = name.starts_with("core::iter::traits::") || name.starts_with("sa_models::It::");
        if is_it && matches!(m, "next" | "next_back" | "nx" | "nb") {
            let back = matches!(m, "next_back" | "nb");
            let v = self.deref_val(st, args[0]);
            let n = self.agg_name(v)?.to_string();
            let base = match n.as_str() {
                "core::ops::range::Range" => "range",
                "core::ops::range::RangeFrom" => "rangefrom",
                "sa_models::RngI" => "rangei",
                x => x.strip_prefix("sa_models::")?,
            }
            .to_lowercase();
            let fname = format!("{base}_next{}", if back { "_back" } else { "" });
            let b = get(self, &fname)?;
            // follow nested references to the iterator itself
            let mut a0 = args[0];
            for _ in 0..4 {
                if let K::Ref(r, p) = self.tab.k(a0).clone() {
                    let x = self.load(st, r, &p);
                    if let K::Ref(..) = self.tab.k(x) {
                        a0 = x;
                        continue;
                    }
                }
                break;
            }
            return Some((Ok(b), vec![a0]));
        }
        if name == "sa_models::MPeek::peek" || name.ends_with("Peekable::peek") {
            let b = get(self, "mpeek_peek")?;
            return Some((Ok(b), args.to_vec()));
        }
        if name.starts_with("core::iter::traits::iterator::Iterator::") || name.starts_with("core::iter::traits::double_ended::") {
            let it = self.keep_iter(st, args[0]);
            let mut a = vec![it];
            a.extend_from_slice(&args[1..]);
            let by_ref = if let K::Ref(..) = self.tab.k(args[0]) { args[0] } else { it };
            let n = match m {
                "any" | "all" | "find" | "find_map" | "position" | "try_for_each" | "try_fold" => {
                    a[0] = by_ref;
                    format!("iter_{m}")
                }
                "for_each" | "fold" | "count" | "last" => format!("iter_{m}"),
                "sum" => format!("iter_sum_{}", strip(f.ga.last().map(|s| &**s).unwrap_or(""))),
                "collect" => {
                    let t = f.ga.last().map(|s| &**s).unwrap_or("");
                    if t.starts_with("core::result::Result") {
                        "collect_result".into()
                    } else if t.starts_with("core::option::Option") {
                        "collect_option".into()
                    } else if t.contains("Map<") || t.contains("Set<") {
                        if t.contains("Map<") {
                            "collect_map".into()
                        } else {
                            "collect_set".into()
                        }
                    } else {
                        "collect_vec".into()
                    }
                }
                _ => return None,
            };
            let b = get(self, &n)?;
            return Some((Ok(b), a));
        }
        if name == "core::iter::traits::collect::Extend::extend" {
            let r = f.rname.as_deref().unwrap_or("");
            if r.starts_with("<alloc::vec::Vec") || r.starts_with("<alloc::collections::vec_deque") {
                let it = self.keep_iter(st, args[1]);
                return Some((Ok(get(self, "vec_extend")?), vec![args[0], it]));
            }
            if r.contains("set") || r.contains("Set") {
                let it = self.keep_iter(st, args[1]);
                return Some((Ok(get(self, "set_extend")?), vec![args[0], it]));
            }
            if r.contains("map") || r.contains("Map") {
                let it = self.keep_iter(st, args[1]);
                return Some((Ok(get(self, "map_extend")?), vec![args[0], it]));
            }
            return None;
        }
        if name == "core::iter::traits::collect::FromIterator::from_iter" {
            return None;
        }
        if let Some(m) = name.strip_prefix("alloc::collections::btree::set::BTreeSet::").or(name.strip_prefix("std::collections::hash::set::HashSet::")) {
            if matches!(m, "difference" | "intersection" | "is_disjoint" | "is_subset") {
                let x = self.deref_val(st, args[0]);
                let it = self.viter(x, st);
                let b = get(self, &format!("set_{m}"))?;
                return Some((Ok(b), vec![it, args[1]]));
            }
        }
        let key = match name {
            "core::option::Option::map" => "option_map",
            "core::option::Option::and_then" => "option_and_then",
            "core::option::Option::map_or" => "option_map_or",
            "core::option::Option::map_or_else" => "option_map_or_else",
            "core::option::Option::is_some_and" => "option_is_some_and",
            "core::option::Option::is_none_or" => "option_is_none_or",
            "core::option::Option::unwrap_or_else" => "option_unwrap_or_else",
            "core::option::Option::ok_or_else" => "option_ok_or_else",
            "core::option::Option::or_else" => "option_or_else",
            "core::option::Option::filter" => "option_filter",
            "core::option::Option::inspect" => "option_inspect",
            "core::result::Result::map" => "result_map",
            "core::result::Result::map_err" => "result_map_err",
            "core::result::Result::and_then" => "result_and_then",
            "core::result::Result::or_else" => "result_or_else",
            "core::result::Result::map_or" => "result_map_or",
            "core::result::Result::map_or_else" => "result_map_or_else",
            "core::result::Result::unwrap_or_else" => "result_unwrap_or_else",
            "core::result::Result::is_ok_and" => "result_is_ok_and",
            "core::result::Result::is_err_and" => "result_is_err_and",
            "core::bool::then" => "bool_then",
            "core::bool::then_some" => "bool_then_some",
            "alloc::vec::Vec::retain" => "vec_retain",
            "core::cmp::Ordering::then_with" => {
                let x = self.deref_val(st, args[0]);
                if let K::Agg(_, 1, _) = self.tab.k(x) {
                    return Some((Err(args[1]), vec![]));
                }
                return None;
            }
            "core::convert::Into::into" | "core::convert::TryInto::try_into" => {
                // find the workspace From impl for (dst, src)
                let (src, dst) = (f.ga.first()?.to_string(), f.ga.get(1)?.to_string());
                let tr = if m == "into" { "From" } else { "TryFrom" };
                for im in &self.p.impls {
                    let Some(t) = &im.tr else { continue };
                    let want = format!("core::convert::{tr}<");
                    if t.starts_with(&want) || t.contains(&format!("::{tr}<")) {
                        let arg = t.splitn(2, '<').nth(1).unwrap_or("").trim_end_matches('>');
                        if norm(&im.selfty) == norm(&dst) && norm_ty(arg) == norm_ty(&src) {
                            let id = im.m.get(if m == "into" { "from" } else { "try_from" })?;
                            let b = *self.p.byid.get(id)?;
                            return Some((Ok(b), args.to_vec()));
                        }
                    }
                }
                return None;
            }
            _ => return None,
        };
        Some((Ok(get(self, key)?), args.to_vec()))
    }
}
fn norm_ty(s: &str) -> String {
    // lifetimes do not matter
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while let Some(d) = it.peek() {
                if d.is_alphanumeric() || *d == '_' {
                    it.next();
                } else {
                    break;
                }
            }
            continue;
        }
        if c != ' ' {
            out.push(c);
        }
    }
    out
}
