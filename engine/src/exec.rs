//! The fixpoint engine: a flow graph of (inlined frame, block, partition) nodes
//! with one abstract state per edge.
use crate::load::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type N = u32;
pub type Root = u32;

#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub max_nodes: usize,
    pub opaque: Vec<String>,
    pub partition_all: bool,
    pub alloc_max: i128,
    pub max_parts: usize,
    /// inlined functions whose calls are recorded as conditions
    pub track: Vec<String>,
    /// record the calls that are made for their effect only
    pub auto: bool,
    /// functions that stand for others (renamed ones)
    pub alias: HashMap<String, String>,
    /// opaque functions whose calls are not recorded
    pub quiet: Vec<String>,
    pub secs: u64,
    pub nocost: bool,
    pub costonly: bool,
    /// gated form independent of the order of the source
    pub sorted: bool,
    /// what the closures' names depend on
    pub scope: String,
    /// canonical names of functions treated as boundaries
    pub bounds: std::rc::Rc<std::collections::HashSet<String>>,
}
/// calls whose effect is outside the values handed around
pub const EFFECTS: &[&str] = &[];
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { depth: 16, max_nodes: 60000, opaque: vec![], partition_all: false, alloc_max: 1 << 26, max_parts: 48, auto: false, alias: Default::default(), track: EFFECTS.iter().map(|s| s.to_string()).collect(), quiet: vec![], nocost: true, costonly: false, sorted: false, scope: String::new(), bounds: Default::default(), secs: std::env::var("SA_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(240) }
    }
}

pub struct Frame {
    pub par: Option<N>,
    pub body: usize,
    pub base: u32,
    pub prio: Vec<u32>,
    pub depth: usize,
}
pub struct Node {
    pub frame: u32,
    pub block: u32,
    pub key: u32,
    pub ins: BTreeMap<(N, u32), Rc<St>>,
    pub outs: Vec<(N, u32)>,
    pub cur: Option<Rc<St>>,
    pub visits: u32,
    pub phis: HashMap<(Root, Vec<Pr>), T>,
    pub cap: bool,
    pub pmap: BTreeMap<T, BTreeMap<(N, u32), T>>,
}
#[derive(Clone)]
pub struct Site {
    pub frame: u32,
    pub body: usize,
    pub block: u32,
    pub kind: String,
    pub what: String,
    pub ln: u32,
    pub ok: bool,
    pub node: N,
}
#[derive(Clone)]
pub struct Event {
    pub node: N,
    pub name: Rc<str>,
    pub args: Vec<T>,
    pub st: Rc<St>,
    pub ln: u32,
    pub entered: bool,
    pub eff: bool,
}
/// an edge of the explored graph, with the conditions decided on it
pub struct Edge {
    pub from: N,
    pub to: N,
    pub oi: u32,
    pub atoms: Vec<(T, i128, bool)>,
    pub body: usize,
    pub ln: u32,
    pub st: Rc<St>,
}
pub struct Exit {
    pub node: N,
    pub st: Rc<St>,
    pub ret: T,
}

pub struct Eng<'p> {
    pub p: &'p Prog,
    pub tab: Tab,
    pub cfg: Cfg,
    pub frames: Vec<Frame>,
    fmap: HashMap<(N, u32), u32>,
    pub nodes: Vec<Node>,
    nmap: HashMap<(u32, u32, u32), N>,
    shapes: HashMap<Vec<u32>, u32>,
    parts: HashMap<(u32, u32), usize>,
    pub next_root: u32,
    pub rootname: HashMap<Root, String>,
    pub work: BTreeSet<(Vec<u32>, N)>,
    pub recording: bool,
    pub done: bool,
    pub trace: bool,
    pub sites: Vec<Site>,
    pub events: Vec<Event>,
    pub exits: Vec<Exit>,
    pub edges: Vec<Edge>,
    pub canon: HashMap<T, Rc<str>>,
    pub aborted: bool,
    pub fns: Vec<Rc<FnRef>>,
    fnmap: HashMap<Rc<str>, u32>,
    pub clos: Vec<Rc<str>>,
    clomap: HashMap<Rc<str>, u32>,
    pub slots: HashMap<(N, Root, Vec<Pr>), u32>,
    pub slotkeys: Vec<(N, Root, Vec<Pr>)>,
    pub discr_adt: HashMap<T, Rc<str>>,
    pub models: HashMap<String, usize>,
    pub imap: HashMap<(String, String), Vec<Rc<str>>>,
    /// `next` of the iterators the workspace defines, by type
    pub wsit: HashMap<String, usize>,
    pub inlined: BTreeSet<usize>,
    destunit: bool,
    destty: String,
    pub opaque_calls: BTreeMap<String, usize>,
    pub entry_args: Vec<T>,
    pub entry_roots: Vec<Option<Root>>,
    pub cells: Vec<(T, Root)>,
    pub cbusy: usize,
    pub cmemo: HashMap<String, T>,
    /// gated form: what the remaining merges stand for
    pub gmap: Option<HashMap<T, Vec<T>>>,
    /// sums that decide something, by name
    pub glin: HashMap<String, Vec<(String, i128, Option<(i128, i128)>)>>,
}

/// what a statement-level helper works on
pub struct Cx {
    pub node: N,
    pub frame: u32,
    pub body: usize,
    pub block: u32,
    pub ln: u32,
}
pub enum CallR {
    Vals(Vec<(St, T)>),
    Inline(usize, Vec<T>),
}

impl<'p> Eng<'p> {
    pub fn new(p: &'p Prog, cfg: Cfg) -> Eng<'p> {
        let mut models = HashMap::new();
        let mut imap: HashMap<(String, String), Vec<Rc<str>>> = HashMap::new();
        let mut wsit = HashMap::new();
        for im in &p.impls {
            if im.tr.as_deref().map(norm).as_deref() == Some("core::iter::traits::iterator::Iterator") {
                if let Some(b) = im.m.get("next").and_then(|id| p.byid.get(id)) {
                    let n = norm(&im.selfty);
                    if !n.starts_with("sa_models") {
                        wsit.insert(n, *b);
                    }
                }
            }
        }
        for (i, b) in p.bodies.iter().enumerate() {
            if let Some(n) = b.name.strip_prefix("sa_models::") {
                models.insert(n.to_string(), i);
            }
        }
        for im in &p.impls {
            if let Some(tr) = &im.tr {
                for (m, id) in &im.m {
                    imap.entry((norm(tr), m.clone())).or_default().push(id.clone());
                }
            }
        }
        Eng {
            p,
            tab: Tab::new(),
            cfg,
            frames: vec![],
            fmap: HashMap::new(),
            nodes: vec![],
            nmap: HashMap::new(),
            shapes: HashMap::new(),
            parts: HashMap::new(),
            next_root: 1,
            rootname: HashMap::new(),
            work: BTreeSet::new(),
            recording: false,
            done: false,
            trace: std::env::var("SA_TRACE").is_ok(),
            sites: vec![],
            events: vec![],
            exits: vec![],
            edges: vec![],
            canon: HashMap::new(),
            aborted: false,
            fns: vec![],
            fnmap: HashMap::new(),
            clos: vec![],
            clomap: HashMap::new(),
            slots: HashMap::new(),
            slotkeys: vec![],
            discr_adt: HashMap::new(),
            models,
            imap,
            wsit,
            inlined: BTreeSet::new(),
            destunit: false,
            destty: String::new(),
            opaque_calls: BTreeMap::new(),
            entry_args: vec![],
            entry_roots: vec![],
            cells: vec![],
            cbusy: 0,
            cmemo: HashMap::new(),
            gmap: None,
            glin: HashMap::new(),
        }
    }
    pub fn sym(&mut self, n: &str) -> T {
        let s = self.tab.s(n);
        self.tab.mk(K::Sym(s))
    }
    pub fn fnval(&mut self, f: &Rc<FnRef>) -> T {
        let key: Rc<str> = format!("{}|{}|{}", f.id, f.rid.as_deref().unwrap_or(""), f.ga.join(",")).into();
        let i = match self.fnmap.get(&key) {
            Some(i) => *i,
            None => {
                self.fns.push(f.clone());
                self.fnmap.insert(key, self.fns.len() as u32 - 1);
                self.fns.len() as u32 - 1
            }
        };
        self.tab.mk(K::Fn(i))
    }
    pub fn cloval(&mut self, id: &Rc<str>, up: Vec<T>) -> T {
        let i = match self.clomap.get(id) {
            Some(i) => *i,
            None => {
                self.clos.push(id.clone());
                self.clomap.insert(id.clone(), self.clos.len() as u32 - 1);
                self.clos.len() as u32 - 1
            }
        };
        self.tab.mk(K::Clo(i, up.into()))
    }
    pub fn new_root(&mut self, name: String) -> Root {
        let r = self.next_root;
        self.next_root += 1;
        self.rootname.insert(r, name);
        r
    }
    /// a cell reached through what the caller handed in (by shared reference):
    /// a place of its own, holding what was found there
    pub fn cell(&mut self, t: T) -> Option<Root> {
        if let Some(c) = self.cells.iter().find(|c| c.0 == t) {
            return Some(c.1);
        }
        let mut b = t;
        while let K::Field(x, ..) = self.tab.k(b) {
            b = *x;
        }
        let K::Sym(_) = self.tab.k(b) else { return None };
        let n = self.show(b);
        if !n.starts_with('p') || !n[1..].chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let r = self.new_root("cell".into());
        self.cells.push((t, r));
        Some(r)
    }
    // ---- memory ---------------------------------------------------------
    pub fn load(&mut self, st: &St, root: Root, path: &[Pr]) -> T {
        let mut v = match st.vals.get(&root) {
            Some(v) => *v,
            None => match self.cells.iter().find(|c| c.1 == root) {
                Some(c) => c.0,
                None => {
                    let n = format!("undef{root}");
                    self.sym(&n)
                }
            },
        };
        for p in path {
            // a reference stored inside a value is followed transparently
            while let K::Ref(r, q) = self.tab.k(v).clone() {
                v = self.load(st, r, &q);
            }
            v = self.tab.proj(v, *p);
        }
        v
    }
    pub fn store(&mut self, st: &mut St, root: Root, path: &[Pr], v: T) {
        if path.is_empty() {
            Rc::make_mut(&mut st.vals).insert(root, v);
            return;
        }
        let b = self.load(st, root, &[]);
        if let K::Ref(r, q) = self.tab.k(b).clone() {
            let mut q = q.to_vec();
            q.extend_from_slice(path);
            return self.store(st, r, &q, v);
        }
        let n = self.upd_path(st, b, path, v);
        Rc::make_mut(&mut st.vals).insert(root, n);
    }
    fn upd_path(&mut self, st: &mut St, b: T, path: &[Pr], v: T) -> T {
        if path.is_empty() {
            return v;
        }
        if let K::Ref(r, q) = self.tab.k(b).clone() {
            let mut q = q.to_vec();
            q.extend_from_slice(path);
            self.store(st, r, &q, v);
            return b;
        }
        if path[0] == Pr::D {
            // somewhere: every place it may be is changed, or not
            let mut rs = vec![];
            self.phi_refs(b, 4, &mut rs);
            for (r, q) in &rs {
                let mut q = q.to_vec();
                q.extend_from_slice(&path[1..]);
                let old = self.load(st, *r, &q);
                let n = self.tab.op("either", &[old, v, b]);
                self.store(st, *r, &q, n);
            }
            if !rs.is_empty() {
                return b;
            }
        }
        let inner = self.tab.proj(b, path[0]);
        let n = self.upd_path(st, inner, &path[1..], v);
        self.tab.upd(b, path[0], n)
    }
    /// where a merged reference may point
    fn phi_refs(&mut self, v: T, d: usize, out: &mut Vec<(Root, Rc<[Pr]>)>) {
        if let (K::Phi(h, _), true) = (self.tab.k(v).clone(), d > 0) {
            let alts: BTreeSet<T> = self.nodes.get(h as usize).and_then(|n| n.pmap.get(&v)).into_iter().flat_map(|m| m.values().copied()).collect();
            for a in alts {
                match self.tab.k(a).clone() {
                    K::Ref(r, p) if !out.contains(&(r, p.clone())) && out.len() < 12 => out.push((r, p)),
                    K::Phi(..) => self.phi_refs(a, d - 1, out),
                    _ => {}
                }
            }
        }
    }
    pub fn deref_val(&mut self, st: &St, v: T) -> T {
        let mut v = v;
        for _ in 0..8 {
            match self.tab.k(v).clone() {
                K::Ref(r, p) => v = self.load(st, r, &p),
                _ => break,
            }
        }
        v
    }
    /// replace references by the values they point to (for opaque arguments)
    pub fn resolve(&mut self, st: &St, v: T, d: usize) -> T {
        if d == 0 {
            return v;
        }
        match self.tab.k(v).clone() {
            K::Ref(..) => {
                let x = self.deref_val(st, v);
                self.resolve(st, x, d - 1)
            }
            K::Agg(n, i, a) if a.len() < 24 => {
                let b: Vec<T> = a.iter().map(|x| self.resolve(st, *x, d - 1)).collect();
                if b[..] == a[..] {
                    v
                } else {
                    self.tab.mk(K::Agg(n, i, b.into()))
                }
            }
            K::Clo(n, a) => {
                let b: Vec<T> = a.iter().map(|x| self.resolve(st, *x, d - 1)).collect();
                if b[..] == a[..] {
                    v
                } else {
                    self.tab.mk(K::Clo(n, b.into()))
                }
            }
            _ => v,
        }
    }
    fn refs_in(&mut self, v: T, d: usize, out: &mut Vec<(Root, Rc<[Pr]>)>) {
        match self.tab.k(v).clone() {
            K::Ref(r, p) => out.push((r, p)),
            K::Agg(_, _, a) | K::Clo(_, a) if d > 0 && a.len() < 24 => {
                for x in a.iter() {
                    self.refs_in(*x, d - 1, out)
                }
            }
            K::Phi(..) => self.phi_refs(v, 3, out),
            _ => {}
        }
    }
    pub fn havoc_refs(&mut self, st: &mut St, name: &str, args: &[T], rargs: &[T]) {
        let s = self.tab.s(name);
        for (i, a) in args.iter().enumerate() {
            let mut rs = vec![];
            self.refs_in(*a, 3, &mut rs);
            for (j, (r, p)) in rs.into_iter().enumerate() {
                let m = self.tab.mk(K::Mut(s, (i * 16 + j) as u32, rargs.into()));
                let old = self.load(st, r, &p);
                if self.tab.ty[m as usize] == 0 {
                    let t = self.val_ty(old);
                    self.tab.ty[m as usize] = t;
                }
                self.store(st, r, &p, m);
            }
        }
    }
    fn is_wrapper(adt: &str) -> bool {
        matches!(
            adt,
            "alloc::boxed::Box"
                | "core::ptr::unique::Unique"
                | "core::ptr::non_null::NonNull"
                | "core::mem::maybe_uninit::MaybeUninit"
                | "core::mem::manually_drop::ManuallyDrop"
                | "core::mem::maybe_dangling::MaybeDangling"
                | "core::pin::Pin"
                | "alloc::boxed::BoxRaw"
                | "core::pin::unsafe_pinned::UnsafePinned"
        ) || adt.ends_with("::BoxRaw")
    }
    pub fn lvalue(&mut self, st: &St, fr: u32, pl: &Place) -> (Root, Vec<Pr>) {
        let mut root = self.frames[fr as usize].base + pl.l;
        let mut path: Vec<Pr> = vec![];
        let mut var: i32 = -1;
        for p in &pl.p {
            match p {
                P::D => {
                    let v = self.load(st, root, &path);
                    if let K::Ref(r, q) = self.tab.k(v).clone() {
                        root = r;
                        path = q.to_vec();
                    } else if matches!(self.tab.k(v), K::Phi(..)) {
                        path.push(Pr::D);
                    }
                }
                P::F(i, name, adt) => {
                    if Self::is_wrapper(adt) && (!(&**name == "meta" || *i > 0) || adt.ends_with("::MaybeUninit")) {
                        continue;
                    }
                    path.push(Pr::F(var, *i));
                    var = -1;
                }
                P::V(v) => var = *v as i32,
                P::I(l) => {
                    let i = self.frames[fr as usize].base + l;
                    let t = self.load(st, i, &[]);
                    let t = self.deref_val(st, t);
                    path.push(Pr::Ix(t));
                }
                P::CI(i, fe) => {
                    let t = if *fe {
                        let v = self.load(st, root, &path);
                        let v = self.deref_val(st, v);
                        let l = self.tab.len(v);
                        let k = self.tab.int(*i as i128);
                        self.tab.sub(l, k)
                    } else {
                        self.tab.int(*i as i128)
                    };
                    path.push(Pr::Ix(t));
                }
                P::Sub(f, t, fe) => {
                    let a = self.tab.int(*f as i128);
                    let b = if *fe {
                        let v = self.load(st, root, &path);
                        let v = self.deref_val(st, v);
                        let l = self.tab.len(v);
                        let k = self.tab.int(*t as i128);
                        self.tab.sub(l, k)
                    } else {
                        self.tab.int(*t as i128)
                    };
                    path.push(Pr::Sl(a, b));
                }
            }
        }
        (root, path)
    }
    pub fn read(&mut self, st: &St, fr: u32, pl: &Place) -> T {
        let (r, p) = self.lvalue(st, fr, pl);
        let v = self.load(st, r, &p);
        if pl.p.is_empty() {
            let ty = self.p.bodies[self.frames[fr as usize].body].locals[pl.l as usize].0.clone();
            self.type_val(v, &ty);
        }
        v
    }
    pub fn type_val(&mut self, v: T, ty: &str) {
        if self.tab.ty[v as usize] == 0 && !matches!(self.tab.k(v), K::Int(_) | K::Agg(..) | K::Ref(..) | K::Clo(..) | K::Fn(_)) {
            let t = ty.trim_start_matches('&').trim_start_matches("mut ");
            self.tab.set_ty(v, t);
        }
    }
    pub fn opnd(&mut self, st: &St, fr: u32, o: &Opnd) -> T {
        match o {
            Opnd::Copy(p) | Opnd::Move(p) => self.read(st, fr, p),
            Opnd::K(c) => self.cst(c),
        }
    }
    pub fn cst(&mut self, c: &Cst) -> T {
        match c {
            Cst::Int(i, ty) => {
                let _ = ty;
                self.tab.int(*i)
            }
            Cst::Bytes(b) => self.tab.mk(K::Bytes(b.clone())),
            Cst::Str(s) => {
                let s = self.tab.s(s);
                self.tab.mk(K::Str(s))
            }
            Cst::Fn(f) => {
                let f = f.clone();
                self.fnval(&f)
            }
            Cst::Promoted(id) => self.const_body(id),
            Cst::Other(n, ty) => {
                if &**ty == "()" {
                    return self.tab.unit();
                }
                if n.starts_with("zst:") {
                    let t = &n[4..];
                    if let Some(a) = self.p.adts.get(t) {
                        if !a.is_enum {
                            return self.tab.agg(t, 0, &[]);
                        }
                    }
                    if t == "core::ops::range::RangeFull" {
                        return self.tab.agg(t, 0, &[]);
                    }
                }
                let s = self.sym(&format!("const {n}"));
                self.type_val(s, ty);
                s
            }
        }
    }
    /// straight-line evaluation of a promoted constant
    fn const_body(&mut self, id: &str) -> T {
        if let Some(t) = self.cmemo.get(id) {
            return *t;
        }
        let Some(&bi) = self.p.byid.get(id) else { return self.sym(&format!("const {id}")) };
        if self.cbusy > 4 {
            return self.sym(&format!("const {id}"));
        }
        self.cbusy += 1;
        let p = self.p;
        let b = &p.bodies[bi];
        let base = self.next_root;
        self.next_root += b.locals.len() as u32;
        self.frames.push(Frame { par: None, body: bi, base, prio: vec![], depth: 0 });
        let fr = self.frames.len() as u32 - 1;
        let mut st = St::default();
        let mut blk = 0u32;
        let mut res = None;
        for _ in 0..64 {
            let Some(k) = &b.blocks[blk as usize] else { break };
            for s in &k.s {
                self.stmt(&mut st, fr, s);
            }
            match &k.t {
                Term::Goto(x) | Term::Drop(_, x) => blk = *x,
                Term::Ret => {
                    let v = self.load(&st, base, &[]);
                    res = Some(self.resolve(&st, v, 6));
                    break;
                }
                Term::Call(f, a, d, Some(to)) => {
                    let args: Vec<T> = a.iter().map(|o| self.opnd(&st, fr, o)).collect();
                    let cx = Cx { node: 0, frame: fr, body: bi, block: blk, ln: k.ln };
                    let rec = std::mem::replace(&mut self.recording, false);
                    let r = match f {
                        Opnd::K(Cst::Fn(f)) => {
                            let f = f.clone();
                            self.native(&cx, st.clone(), &f, &args)
                        }
                        _ => None,
                    };
                    self.recording = rec;
                    match r {
                        Some(mut v) if v.len() == 1 => {
                            let (s2, val) = v.pop().unwrap();
                            st = s2;
                            let (r, q) = self.lvalue(&st, fr, d);
                            self.store(&mut st, r, &q, val);
                            blk = *to;
                        }
                        _ => break,
                    }
                }
                _ => break,
            }
        }
        self.cbusy -= 1;
        let r = match res {
            Some(r) => r,
            None => self.sym(&format!("const {id}")),
        };
        self.cmemo.insert(id.to_string(), r);
        r
    }
    // ---- facts ----------------------------------------------------------
    pub fn ival(&mut self, st: &St, t: T) -> (i128, i128) {
        Ent::new(&mut self.tab, st).ival(t)
    }
    pub fn le(&mut self, st: &St, a: T, b: T, k: i128) -> bool {
        let Some(mut l) = self.tab.lin(a).add(&self.tab.lin(b), -1) else { return false };
        l.k += k;
        Ent::new(&mut self.tab, st).entails(&l)
    }
    pub fn truth(&mut self, st: &St, c: T) -> Option<bool> {
        if let Some(i) = self.tab.as_int(c) {
            return Some(i != 0);
        }
        if let Some(v) = st.eqc.get(&c) {
            return Some(*v != 0);
        }
        if st.ne.contains(&(c, 0)) {
            // known non-zero: a boolean is then true
            if self.tab.tyname(c) == "bool" {
                return Some(true);
            }
        }
        if let Some((n, a)) = self.tab.opname(c) {
            let n = n.to_string();
            let a = a.to_vec();
            match n.as_str() {
                "not" => return self.truth(st, a[0]).map(|b| !b),
                "and" => {
                    let (x, y) = (self.truth(st, a[0]), self.truth(st, a[1]));
                    return match (x, y) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    };
                }
                "or" => {
                    let (x, y) = (self.truth(st, a[0]), self.truth(st, a[1]));
                    return match (x, y) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    };
                }
                "le0" => {
                    let l = self.tab.raw_lin(a[0]);
                    if Ent::new(&mut self.tab, st).entails(&l) {
                        return Some(true);
                    }
                    let mut m = l.scale(-1)?;
                    m.k += 1;
                    if Ent::new(&mut self.tab, st).entails(&m) {
                        return Some(false);
                    }
                }
                "eq0" => {
                    let l = self.tab.raw_lin(a[0]);
                    let m = l.scale(-1)?;
                    let (p, q) = (Ent::new(&mut self.tab, st).entails(&l), Ent::new(&mut self.tab, st).entails(&m));
                    if p && q {
                        return Some(true);
                    }
                    let mut l1 = l.clone();
                    l1.k += 1;
                    let mut m1 = m.clone();
                    m1.k += 1;
                    if Ent::new(&mut self.tab, st).entails(&l1) || Ent::new(&mut self.tab, st).entails(&m1) {
                        return Some(false);
                    }
                    if l.v.len() == 1 && l.v[0].1 == 1 && st.ne.contains(&(l.v[0].0, -l.k)) {
                        return Some(false);
                    }
                }
                "eq" => {
                    // two values each known equal to a third are equal
                    for (t, v) in st.eqc.iter() {
                        if *v != 1 {
                            continue;
                        }
                        if let Some(("eq", b)) = self.tab.opname(*t) {
                            let b = b.to_vec();
                            for (x, y) in [(b[0], b[1]), (b[1], b[0])] {
                                if x == a[0] || x == a[1] {
                                    let other = if x == a[0] { a[1] } else { a[0] };
                                    let e = if y < other { [y, other] } else { [other, y] };
                                    if y == other {
                                        return Some(true);
                                    }
                                    let e = self.tab.op("eq", &e);
                                    if let Some(v) = st.eqc.get(&e) {
                                        return Some(*v != 0);
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    fn add_lin(&mut self, st: &mut St, l: Lin) {
        if l.v.is_empty() || l.v.len() > 6 {
            return;
        }
        let l = l.norm();
        let lo = Rc::new(Lin { v: l.v.clone(), k: i128::MIN });
        let same: Vec<Rc<Lin>> = st.lin.range(lo..).take_while(|x| x.v == l.v).cloned().collect();
        if same.iter().any(|x| x.k >= l.k) {
            return;
        }
        let m = Rc::make_mut(&mut st.lin);
        for x in same {
            m.remove(&x);
        }
        m.insert(Rc::new(l));
    }
    /// add a condition; false = infeasible
    pub fn assume(&mut self, st: &mut St, c: T, val: bool) -> bool {
        match self.truth(st, c) {
            Some(b) if b != val => return false,
            Some(_) => {
                // entailed, but remember the condition itself
                if self.tab.as_int(c).is_some() {
                    return true;
                }
            }
            None => {
                if self.recording {
                    let compound = match self.tab.opname(c) {
                        Some(("not", _)) => true,
                        Some(("and", _)) => val,
                        Some(("or", _)) => !val,
                        _ => false,
                    };
                    if !compound {
                        Rc::make_mut(&mut st.log).push((c, val as i128, true));
                    }
                }
            }
        }
        let op = self.tab.opname(c).map(|(n, a)| (n.to_string(), a.to_vec()));
        match op {
            Some((n, a)) => match n.as_str() {
                "not" => self.assume(st, a[0], !val),
                "and" if val => self.assume(st, a[0], true) && self.assume(st, a[1], true),
                "or" if !val => self.assume(st, a[0], false) && self.assume(st, a[1], false),
                "le0" => {
                    let l = self.tab.raw_lin(a[0]);
                    let l = if val {
                        l
                    } else {
                        match l.scale(-1) {
                            Some(mut m) => {
                                m.k += 1;
                                m
                            }
                            None => return true,
                        }
                    };
                    self.add_lin(st, l);
                    true
                }
                "eq0" => {
                    let l = self.tab.raw_lin(a[0]);
                    if val {
                        if l.v.len() == 1 && l.v[0].1 == 1 {
                            return self.assume_eq(st, l.v[0].0, -l.k);
                        }
                        let m = l.scale(-1);
                        self.add_lin(st, l);
                        if let Some(m) = m {
                            self.add_lin(st, m);
                        }
                        Rc::make_mut(&mut st.eqc).insert(c, 1);
                    } else {
                        if l.v.len() == 1 && l.v[0].1 == 1 {
                            return self.assume_ne(st, l.v[0].0, -l.k);
                        }
                        Rc::make_mut(&mut st.eqc).insert(c, 0);
                        // tighten x<=y, x!=y to x<y
                        if Ent::new(&mut self.tab, st).entails(&l) {
                            let mut l = l.clone();
                            l.k += 1;
                            self.add_lin(st, l);
                        } else if let Some(m) = l.scale(-1) {
                            if Ent::new(&mut self.tab, st).entails(&m) {
                                let mut m = m;
                                m.k += 1;
                                self.add_lin(st, m);
                            }
                        }
                    }
                    true
                }
                _ => {
                    Rc::make_mut(&mut st.eqc).insert(c, val as i128);
                    true
                }
            },
            None => {
                if val {
                    if self.tab.tyname(c) == "bool" {
                        self.assume_eq(st, c, 1)
                    } else {
                        self.assume_ne(st, c, 0)
                    }
                } else {
                    self.assume_eq(st, c, 0)
                }
            }
        }
    }
    pub fn assume_eq(&mut self, st: &mut St, t: T, c: i128) -> bool {
        if let Some(i) = self.tab.as_int(t) {
            return i == c;
        }
        if let Some(v) = st.eqc.get(&t) {
            return *v == c;
        }
        if st.ne.contains(&(t, c)) {
            return false;
        }
        if let K::Lin(..) = self.tab.k(t) {
            let mut l = self.tab.lin(t);
            l.k -= c;
            let e = self.tab.eq0(&l);
            return self.assume(st, e, true);
        }
        if let Some((n, _)) = self.tab.opname(t) {
            if matches!(n, "not" | "and" | "or" | "le0" | "eq0") {
                return self.assume(st, t, c != 0);
            }
        }
        let (lo, hi) = self.ival(st, t);
        if c < lo || c > hi {
            return false;
        }
        if self.recording && lo != hi {
            Rc::make_mut(&mut st.log).push((t, c, true));
        }
        Rc::make_mut(&mut st.eqc).insert(t, c);
        true
    }
    pub fn assume_ne(&mut self, st: &mut St, t: T, c: i128) -> bool {
        if let Some(i) = self.tab.as_int(t) {
            return i != c;
        }
        if let Some(v) = st.eqc.get(&t) {
            return *v != c;
        }
        if let K::Lin(..) = self.tab.k(t) {
            let mut l = self.tab.lin(t);
            l.k -= c;
            let e = self.tab.eq0(&l);
            return self.assume(st, e, false);
        }
        if let Some((n, _)) = self.tab.opname(t) {
            if matches!(n, "not" | "and" | "or" | "le0" | "eq0" | "eq" | "lt") && (c == 0 || c == 1) {
                return self.assume(st, t, c == 0);
            }
        }
        let (lo, hi) = self.ival(st, t);
        if lo == c && hi == c {
            return false;
        }
        if let K::Discr(_) = self.tab.k(t) {
            if let Some(a) = self.discr_adt.get(&t).and_then(|n| self.p.adts.get(n)) {
                let left: Vec<i128> =
                    a.vars.iter().map(|v| v.discr).filter(|d| *d != c && !st.ne.contains(&(t, *d))).collect();
                if left.is_empty() {
                    return false;
                }
                if left.len() == 1 {
                    if self.recording {
                        Rc::make_mut(&mut st.log).push((t, left[0], true));
                    }
                    Rc::make_mut(&mut st.eqc).insert(t, left[0]);
                    Rc::make_mut(&mut st.ne).insert((t, c));
                    return true;
                }
            }
        } else if self.tab.tyname(t) == "bool" {
            return self.assume_eq(st, t, 1 - c);
        }
        if self.recording && !st.ne.contains(&(t, c)) {
            Rc::make_mut(&mut st.log).push((t, c, false));
        }
        Rc::make_mut(&mut st.ne).insert((t, c));
        true
    }
    pub fn discr(&mut self, st: &St, v: T, adt: &str) -> T {
        let v = self.deref_val(st, v);
        if let K::Agg(n, i, _) = self.tab.k(v).clone() {
            let name = self.tab.str(n).to_string();
            let d = self
                .p
                .adts
                .get(name.as_str())
                .and_then(|a| a.vars.get(i as usize))
                .map(|v| v.discr)
                .unwrap_or(i as i128);
            return self.tab.int(d);
        }
        if let K::Upd(b, Pr::F(..), _) = self.tab.k(v).clone() {
            return self.discr(st, b, adt);
        }
        let d = self.tab.mk(K::Discr(v));
        let base = adt.split('<').next().unwrap_or(adt);
        if let Some((k, _)) = self.p.adts.get_key_value(base) {
            self.discr_adt.insert(d, k.clone());
        }
        d
    }
    /// variant index of an enum value if known
    pub fn variant(&mut self, st: &St, v: T, adt: &str) -> Option<u32> {
        let v = self.deref_val(st, v);
        if let K::Agg(_, i, _) = self.tab.k(v) {
            return Some(*i);
        }
        let d = self.discr(st, v, adt);
        let c = match self.tab.as_int(d) {
            Some(c) => c,
            None => *st.eqc.get(&d)?,
        };
        match self.p.adts.get(adt) {
            Some(a) => a.vars.iter().position(|x| x.discr == c).map(|x| x as u32),
            None => Some(c as u32),
        }
    }
    pub fn agg_name(&self, v: T) -> Option<&str> {
        match self.tab.k(v) {
            K::Agg(n, _, _) => Some(self.tab.str(*n)),
            _ => None,
        }
    }
    /// fork on the variants of a two-variant std enum
    pub fn split(&mut self, st: &St, v: T, adt: &str, want: u32) -> Option<St> {
        let v = self.deref_val(st, v);
        match self.variant(st, v, adt) {
            Some(i) => {
                if i == want {
                    Some(st.clone())
                } else {
                    None
                }
            }
            None => {
                let d = self.discr(st, v, adt);
                let mut s = st.clone();
                let c = self.p.adts.get(adt).map(|a| a.vars[want as usize].discr).unwrap_or(want as i128);
                if self.assume_eq(&mut s, d, c) {
                    Some(s)
                } else {
                    None
                }
            }
        }
    }
    // ---- statements -------------------------------------------------------
    pub fn int_eq(&mut self, a: T, b: T) -> T {
        match self.tab.lin(a).add(&self.tab.lin(b), -1) {
            Some(l) => self.tab.eq0(&l),
            None => self.tab.op("eq", &[a, b]),
        }
    }
    pub fn int_le(&mut self, a: T, b: T) -> T {
        match self.tab.lin(a).add(&self.tab.lin(b), -1) {
            Some(l) => self.tab.le0(&l),
            None => self.tab.op("le", &[a, b]),
        }
    }
    pub fn val_eq(&mut self, st: &St, a: T, b: T) -> T {
        let a = self.deref_val(st, a);
        let b = self.deref_val(st, b);
        if a == b {
            return self.tab.int(1);
        }
        let isint = |e: &Tab, t: T| matches!(e.k(t), K::Int(_) | K::Lin(..) | K::Len(_)) || int_range(e.tyname(t)).is_some();
        if isint(&self.tab, a) || isint(&self.tab, b) {
            return self.int_eq(a, b);
        }
        match (self.tab.k(a).clone(), self.tab.k(b).clone()) {
            (K::Agg(n1, v1, x), K::Agg(n2, v2, y)) => {
                if n1 == n2 && v1 == v2 && x.len() == y.len() {
                    let mut acc = self.tab.int(1);
                    for (p, q) in x.iter().zip(y.iter()) {
                        let e = self.val_eq(st, *p, *q);
                        acc = self.and(acc, e);
                    }
                    return acc;
                }
                if n1 == n2 && v1 != v2 {
                    return self.tab.int(0);
                }
            }
            (K::Agg(n, v, x), _) | (_, K::Agg(n, v, x)) if self.p.adts.get(self.tab.str(n)).map(|a| a.is_enum).unwrap_or(false) => {
                let o = if let K::Agg(..) = self.tab.k(a) { b } else { a };
                let name = self.tab.str(n).to_string();
                let d = self.discr(st, o, &name);
                let want = self.p.adts.get(name.as_str()).map(|a| a.vars[v as usize].discr).unwrap_or(v as i128);
                let w = self.tab.int(want);
                let mut acc = self.int_eq(d, w);
                for (i, p) in x.iter().enumerate() {
                    let f = self.tab.field(o, v as i32, i as u32);
                    let e = self.val_eq(st, f, *p);
                    acc = self.and(acc, e);
                }
                return acc;
            }
            (K::Bytes(x), K::Bytes(y)) => return self.tab.int((x == y) as i128),
            (K::Str(x), K::Str(y)) => return self.tab.int((x == y) as i128),
            _ => {}
        }
        let la = self.tab.len(a);
        let lb = self.tab.len(b);
        if let (Some(x), Some(y)) = (self.tab.as_int(la), self.tab.as_int(lb)) {
            if x != y {
                return self.tab.int(0);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.tab.op("eq", &[a, b])
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        match (self.tab.as_int(a), self.tab.as_int(b)) {
            (Some(0), _) | (_, Some(0)) => self.tab.int(0),
            (Some(_), _) => b,
            (_, Some(_)) => a,
            _ if a == b => a,
            _ => {
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.tab.op("and", &[a, b])
            }
        }
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        match (self.tab.as_int(a), self.tab.as_int(b)) {
            (Some(0), _) => b,
            (_, Some(0)) => a,
            (Some(_), _) | (_, Some(_)) => self.tab.int(1),
            _ if a == b => a,
            _ => {
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.tab.op("or", &[a, b])
            }
        }
    }
    pub fn in_range(&mut self, v: T, ty: &str) -> T {
        let Some((lo, hi)) = int_range(ty) else { return self.tab.int(1) };
        let l = self.tab.int(lo);
        let h = self.tab.int(hi);
        let a = self.int_le(l, v);
        let b = self.int_le(v, h);
        let unsigned = lo == 0;
        // keep only the bounds that can fail given the operand types
        let _ = unsigned;
        self.and(a, b)
    }
    pub fn arith(&mut self, st: &St, op: &str, a: T, b: T, ty: &str) -> T {
        let (x, y) = (self.tab.as_int(a), self.tab.as_int(b));
        match op {
            "Add" | "AddUnchecked" => self.tab.add(a, b),
            "Sub" | "SubUnchecked" => self.tab.sub(a, b),
            "Mul" | "MulUnchecked" => {
                let r = self.tab.mul(a, b);
                r
            }
            "Div" => {
                if let (Some(x), Some(y)) = (x, y) {
                    if y != 0 {
                        return self.tab.int(x.wrapping_div(y));
                    }
                }
                if y == Some(1) {
                    return a;
                }
                self.top("div", &[a, b], ty)
            }
            "Rem" => {
                if let (Some(x), Some(y)) = (x, y) {
                    if y != 0 {
                        return self.tab.int(x.wrapping_rem(y));
                    }
                }
                self.top("rem", &[a, b], ty)
            }
            "Shl" | "ShlUnchecked" => {
                if let Some(k) = y {
                    if (0..120).contains(&k) {
                        let m = self.tab.int(1i128 << k);
                        let r = self.tab.mul(a, m);
                        if let Some((_, hi)) = int_range(ty) {
                            let iv = self.ival(st, r);
                            if iv.0 >= 0 && iv.1 <= hi {
                                return r;
                            }
                        }
                    }
                }
                if let (Some(x), None) = (x, y) {
                    if x > 1 && x & (x - 1) == 0 {
                        // 2 << n is 1 << (n + 1)
                        let k = self.tab.int(x.trailing_zeros() as i128);
                        let b = self.tab.add(b, k);
                        let one = self.tab.int(1);
                        return self.top("shl", &[one, b], ty);
                    }
                }
                self.top("shl", &[a, b], ty)
            }
            "Shr" | "ShrUnchecked" => {
                if let (Some(x), Some(k)) = (x, y) {
                    if (0..127).contains(&k) {
                        return self.tab.int(x >> k);
                    }
                }
                self.top("shr", &[a, b], ty)
            }
            "BitAnd" | "BitOr" | "BitXor" => {
                if ty == "bool" {
                    return match op {
                        "BitAnd" => self.and(a, b),
                        "BitOr" => self.or(a, b),
                        _ => {
                            let e = self.int_eq(a, b);
                            self.tab.not(e)
                        }
                    };
                }
                if let (Some(x), Some(y)) = (x, y) {
                    return self.tab.int(match op {
                        "BitAnd" => x & y,
                        "BitOr" => x | y,
                        _ => x ^ y,
                    });
                }
                let n = match op {
                    "BitAnd" => "band",
                    "BitOr" => "bor",
                    _ => "bxor",
                };
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.top(n, &[a, b], ty)
            }
            _ => self.top(op, &[a, b], ty),
        }
    }
    pub fn top(&mut self, n: &str, a: &[T], ty: &str) -> T {
        let t = self.tab.op(n, a);
        self.tab.set_ty(t, ty);
        t
    }
    pub fn binop(&mut self, st: &St, op: &str, a: T, b: T, ty: &str) -> T {
        let a = self.deref_val(st, a);
        let b = self.deref_val(st, b);
        match op {
            "Eq" | "Ne" => {
                let e = if int_range(ty).is_some() { self.int_eq(a, b) } else { self.val_eq(st, a, b) };
                if op == "Eq" {
                    e
                } else {
                    self.tab.not(e)
                }
            }
            "Le" => self.int_le(a, b),
            "Ge" => self.int_le(b, a),
            "Lt" => {
                let c = self.int_le(b, a);
                self.tab.not(c)
            }
            "Gt" => {
                let c = self.int_le(a, b);
                self.tab.not(c)
            }
            _ if op.ends_with("WithOverflow") => {
                let o = op.trim_end_matches("WithOverflow");
                let v = self.arith(st, o, a, b, ty);
                if !matches!(self.tab.k(v), K::Int(_) | K::Lin(..)) {
                    self.tab.set_ty(v, "i128");
                }
                let ok = self.in_range_op(st, v, ty);
                let ov = self.tab.not(ok);
                self.tab.tuple(&[v, ov])
            }
            _ => self.arith(st, op, a, b, ty),
        }
    }
    /// in-range condition without the half the operand types already guarantee
    pub fn in_range_op(&mut self, st: &St, v: T, ty: &str) -> T {
        let Some((lo, hi)) = int_range(ty) else { return self.tab.int(1) };
        let _ = st;
        // type-only interval: canonical regardless of flow facts
        let empty = St::default();
        let iv = Ent::new(&mut self.tab, &empty).ival(v);
        let l = self.tab.int(lo);
        let h = self.tab.int(hi);
        let a = if iv.0 >= lo { self.tab.int(1) } else { self.int_le(l, v) };
        let b = if iv.1 <= hi { self.tab.int(1) } else { self.int_le(v, h) };
        self.and(a, b)
    }
    pub fn cast_int(&mut self, st: &St, v: T, to: &str, from: &str) -> T {
        let v = self.deref_val(st, v);
        let Some((lo, hi)) = int_range(to) else { return v };
        if let Some(i) = self.tab.as_int(v) {
            if i >= lo && i <= hi {
                return v;
            }
            let bits = match to {
                "u8" | "i8" => 8,
                "u16" | "i16" => 16,
                "u32" | "i32" | "char" => 32,
                "u64" | "usize" | "i64" | "isize" => 64,
                _ => 0,
            };
            if bits > 0 {
                let m = 1i128 << bits;
                let mut r = i.rem_euclid(m);
                if r > hi {
                    r -= m;
                }
                return self.tab.int(r);
            }
        }
        if let Some((fl, fh)) = int_range(from) {
            self.type_val(v, from);
            if fl >= lo && fh <= hi {
                return v;
            }
        }
        let iv = self.ival(st, v);
        if iv.0 >= lo && iv.1 <= hi {
            return v;
        }
        self.top(&format!("cast:{to}"), &[v], to)
    }
    pub fn stmt(&mut self, st: &mut St, fr: u32, s: &Stmt) {
        match &s.rv {
            Rv::Dead => {
                let r = self.frames[fr as usize].base + s.pl.l;
                if st.vals.contains_key(&r) {
                    Rc::make_mut(&mut st.vals).remove(&r);
                }
                return;
            }
            Rv::SetD(_) => return,
            _ => {}
        }
        let v = self.rvalue(st, fr, &s.rv);
        let (r, p) = self.lvalue(st, fr, &s.pl);
        if s.pl.p.is_empty() {
            let ty = self.p.bodies[self.frames[fr as usize].body].locals[s.pl.l as usize].0.clone();
            self.type_val(v, &ty);
        }
        self.store(st, r, &p, v);
    }
    fn rvalue(&mut self, st: &mut St, fr: u32, rv: &Rv) -> T {
        match rv {
            Rv::Use(o) => self.opnd(st, fr, o),
            Rv::Repeat(o, n) => {
                let v = self.opnd(st, fr, o);
                match n {
                    Some(n) => {
                        let k = self.tab.int(*n as i128);
                        self.tab.op("repeat", &[v, k])
                    }
                    None => self.tab.op("repeat?", &[v]),
                }
            }
            Rv::Ref(p, m) => {
                let (r, q) = self.lvalue(st, fr, p);
                if *m {
                    self.tab.mk(K::Ref(r, q.into()))
                } else {
                    self.load(st, r, &q)
                }
            }
            Rv::Raw(p) => {
                let (r, q) = self.lvalue(st, fr, p);
                self.tab.mk(K::Ref(r, q.into()))
            }
            Rv::Cast(kind, o, to, from) => {
                if to.starts_with('*') {
                    if let Opnd::Copy(p) | Opnd::Move(p) = o {
                        if p.p.iter().any(|x| matches!(x, P::F(_, _, a) if Self::is_wrapper(a))) {
                            let (r, q) = self.lvalue(st, fr, p);
                            let v = self.load(st, r, &q);
                            if let K::Ref(..) = self.tab.k(v) {
                                return v;
                            }
                            return self.tab.mk(K::Ref(r, q.into()));
                        }
                    }
                }
                let v = self.opnd(st, fr, o);
                match &**kind {
                    "IntToInt" => self.cast_int(st, v, to, from),
                    _ => v,
                }
            }
            Rv::Bin(op, a, b, ty) => {
                let a = self.opnd(st, fr, a);
                let b = self.opnd(st, fr, b);
                self.binop(st, op, a, b, ty)
            }
            Rv::Un(op, a) => {
                let ty = match a {
                    Opnd::Copy(p) | Opnd::Move(p) if p.p.is_empty() => {
                        self.p.bodies[self.frames[fr as usize].body].locals[p.l as usize].0.clone()
                    }
                    _ => "".into(),
                };
                let a = self.opnd(st, fr, a);
                let a = self.deref_val(st, a);
                match &**op {
                    "Not" => {
                        if &*ty == "bool" || self.tab.tyname(a) == "bool" || self.is_cond(a) {
                            self.tab.not(a)
                        } else {
                            let n = self.top("bnot", &[a], &ty);
                            n
                        }
                    }
                    "Neg" => {
                        let z = self.tab.int(0);
                        self.tab.sub(z, a)
                    }
                    "PtrMetadata" => self.tab.len(a),
                    _ => self.tab.op(op, &[a]),
                }
            }
            Rv::Discr(p, adt) => {
                let v = self.read(st, fr, p);
                self.discr(st, v, adt)
            }
            Rv::Agg(k, os) => {
                let vs: Vec<T> = os.iter().map(|o| self.opnd(st, fr, o)).collect();
                match k {
                    AggK::Adt(n, v, names) => {
                        if Self::is_wrapper(n) && vs.len() == 1 {
                            return vs[0];
                        }
                        let _ = names;
                        let t = self.tab.agg(n, *v, &vs);
                        t
                    }
                    AggK::Tuple => self.tab.tuple(&vs),
                    AggK::Array => self.tab.agg("vec", 0, &vs),
                    AggK::Clo(id) => {
                        let id = id.clone();
                        self.cloval(&id, vs)
                    }
                    AggK::Other => self.tab.op("agg?", &vs),
                }
            }
            _ => self.tab.op("rv?", &[]),
        }
    }
    pub fn is_cond(&self, t: T) -> bool {
        matches!(self.tab.opname(t), Some(("le0" | "eq0" | "not" | "eq" | "and" | "or" | "lt", _)))
    }
    // ---- graph ------------------------------------------------------------
    pub fn shape(&mut self, st: &St, v: T, ty: &str, d: usize) -> u32 {
        if d == 0 {
            return 0;
        }
        if ty == "bool" {
            return match self.truth(st, v) {
                Some(true) => 2,
                Some(false) => 1,
                None => 0,
            };
        }
        let k = self.tab.k(v).clone();
        let mut out = vec![];
        match k {
            K::Agg(n, i, a) => {
                let name = self.tab.str(n).to_string();
                let std = matches!(
                    name.as_str(),
                    "core::option::Option" | "core::result::Result" | "core::ops::control_flow::ControlFlow" | "core::cmp::Ordering"
                );
                let en = std || (self.cfg.partition_all && self.p.adts.get(name.as_str()).map(|a| a.is_enum).unwrap_or(false));
                if name == "sa_models::VIter" {
                    // a loop over what is written out is run through
                    let c = self.deref_val(st, a[0]);
                    let few = matches!(self.tab.k(c), K::Agg(n, _, els) if self.tab.str(*n) == "vec" && els.len() <= 4);
                    match (few, self.tab.as_int(a[1]), self.tab.as_int(a[2])) {
                        (true, Some(i), Some(n)) => out.extend([3000 + i as u32, n as u32]),
                        _ => return 0,
                    }
                    let n = self.shapes.len() as u32 + 10;
                    return *self.shapes.entry(out).or_insert(n);
                }
                if en {
                    out.push(i + 1);
                } else if !(name == "tuple" || name.ends_with("::CostContext") || name.starts_with("sa_models::")) || a.len() > 4 {
                    return 0;
                } else {
                    out.push(1000);
                }
                // an error's payload is never part of the key
                if !(name.ends_with("::Result") && i == 1) {
                    for x in a.iter() {
                        let s = self.shape(st, *x, if ty.contains("&mut ") { "&mut " } else { "" }, d - 1);
                        out.push(s);
                    }
                }
                if out.iter().all(|x| *x == 0 || *x == 1000) {
                    return 0;
                }
            }
            K::Int(_) => return 0,
            // what is written through a reference goes where it points
            K::Ref(r, p) if ty.starts_with("&mut ") => {
                out.push(2000);
                out.push(r as u32);
                out.extend(p.iter().map(|x| crate::show::fnv(&format!("{x:?}")) as u32));
            }
            K::Ref(..) | K::Clo(..) | K::Fn(_) => return 0,
            _ => {
                let base = ty.split('<').next().unwrap_or("");
                let want = match base {
                    "core::option::Option" | "core::result::Result" | "core::ops::control_flow::ControlFlow" => true,
                    _ => self.cfg.partition_all && self.p.adts.get(base).map(|a| a.is_enum).unwrap_or(false),
                };
                if !want {
                    return 0;
                }
                let dt = self.tab.mk(K::Discr(v));
                match st.eqc.get(&dt) {
                    Some(c) => out.push(*c as u32 + 1),
                    None => return 0,
                }
            }
        }
        let n = self.shapes.len() as u32 + 10;
        *self.shapes.entry(out).or_insert(n)
    }
    fn key_of(&mut self, st: &St, fr: u32, block: u32) -> u32 {
        let p = self.p;
        let b = &p.bodies[self.frames[fr as usize].body];
        let base = self.frames[fr as usize].base;
        let mut out = vec![];
        for (l, k) in b.keyloc.iter().enumerate() {
            if *k == 0 || !(b.live[block as usize][l] || b.addr[l]) {
                continue;
            }
            let Some(v) = st.vals.get(&(base + l as u32)).copied() else { continue };
            let ty = b.locals[l].0.clone();
            let s = self.shape(st, v, &ty, 3);
            if s != 0 {
                out.push(l as u32);
                out.push(s);
            }
        }
        if out.is_empty() {
            return 0;
        }
        let n = self.shapes.len() as u32 + 10;
        let k = *self.shapes.entry(out).or_insert(n);
        if !self.nmap.contains_key(&(fr, block, k)) {
            let c = self.parts.entry((fr, block)).or_insert(0);
            *c += 1;
            if *c > self.cfg.max_parts {
                return 1;
            }
        }
        k
    }
    fn node(&mut self, frame: u32, block: u32, key: u32) -> N {
        if let Some(n) = self.nmap.get(&(frame, block, key)) {
            return *n;
        }
        let n = self.nodes.len() as u32;
        self.nodes.push(Node {
            frame,
            block,
            key,
            ins: BTreeMap::new(),
            outs: vec![],
            cur: None,
            visits: 0,
            phis: HashMap::new(),
            cap: false,
            pmap: BTreeMap::new(),
        });
        self.nmap.insert((frame, block, key), n);
        n
    }
    pub fn prio(&self, n: N) -> Vec<u32> {
        let nd = &self.nodes[n as usize];
        let f = &self.frames[nd.frame as usize];
        let mut v = f.prio.clone();
        v.push(self.p.bodies[f.body].rpo[nd.block as usize]);
        v
    }
    fn enqueue(&mut self, n: N) {
        let p = self.prio(n);
        self.work.insert((p, n));
    }
    pub fn frame_for(&mut self, caller: N, body: usize) -> u32 {
        if let Some(f) = self.fmap.get(&(caller, body as u32)) {
            return *f;
        }
        let prio = self.prio(caller);
        let depth = self.frames[self.nodes[caller as usize].frame as usize].depth + 1;
        let base = self.next_root;
        self.next_root += self.p.bodies[body].locals.len() as u32;
        self.frames.push(Frame { par: Some(caller), body, base, prio, depth });
        self.inlined.insert(body);
        let f = self.frames.len() as u32 - 1;
        self.fmap.insert((caller, body as u32), f);
        f
    }
    pub fn in_stack(&self, mut fr: u32, body: usize) -> usize {
        let mut n = 0;
        loop {
            let f = &self.frames[fr as usize];
            if f.body == body {
                n += 1;
            }
            match f.par {
                Some(c) => fr = self.nodes[c as usize].frame,
                None => return n,
            }
        }
    }
    /// set up the entry frame with symbolic parameters
    pub fn enter(&mut self, body: usize, names: Option<Vec<String>>) {
        let p = self.p;
        let b = &p.bodies[body];
        let base = self.next_root;
        self.next_root += b.locals.len() as u32;
        self.frames.push(Frame { par: None, body, base, prio: vec![], depth: 0 });
        self.inlined.insert(body);
        let fr = self.frames.len() as u32 - 1;
        let mut st = St::default();
        for i in 0..b.argc {
            let ty = b.locals[i + 1].0.clone();
            let nm = match &names {
                Some(n) => n[i].clone(),
                None => format!("p{i}"),
            };
            let s = self.sym(&nm);
            self.entry_roots.push(None);
            let v = if ty.starts_with("&mut ") {
                let r = self.new_root(nm.clone());
                *self.entry_roots.last_mut().unwrap() = Some(r);
                self.type_val(s, &ty[5..]);
                Rc::make_mut(&mut st.vals).insert(r, s);
                self.tab.mk(K::Ref(r, Rc::from(vec![])))
            } else {
                self.type_val(s, &ty);
                s
            };
            self.entry_args.push(s);
            Rc::make_mut(&mut st.vals).insert(base + i as u32 + 1, v);
        }
        let n = self.node(fr, 0, 0);
        self.nodes[n as usize].ins.insert((u32::MAX, 0), Rc::new(st));
        self.enqueue(n);
    }
    pub fn run(&mut self) {
        let t0 = std::time::Instant::now();
        let mut steps = 0usize;
        while let Some((p, n)) = self.work.iter().next().cloned() {
            self.work.remove(&(p, n));
            steps += 1;
            if self.nodes.len() > self.cfg.max_nodes || t0.elapsed().as_secs() > self.cfg.secs {
                self.aborted = true;
                break;
            }
            self.visit(n);
        }
        if std::env::var("SA_STATS").is_ok() {
            eprintln!("steps {steps} nodes {} terms {} {:?}", self.nodes.len(), self.tab.ks.len(), t0.elapsed());
        }
        // recording pass
        self.recording = true;
        self.sites.clear();
        self.events.clear();
        self.exits.clear();
        let mut order: Vec<N> = (0..self.nodes.len() as u32).filter(|n| self.nodes[*n as usize].cur.is_some()).collect();
        order.sort_by_key(|n| self.prio(*n));
        for n in order {
            let st = self.nodes[n as usize].cur.clone().unwrap();
            let (body, ln) = {
                let nd = &self.nodes[n as usize];
                let b = self.frames[nd.frame as usize].body;
                (b, self.p.bodies[b].blocks[nd.block as usize].as_ref().map(|k| k.ln).unwrap_or(0))
            };
            let outs = self.exec(n, &st);
            for (oi, (f, b, s)) in outs.into_iter().enumerate() {
                let mut s = s;
                let atoms = s.log.to_vec();
                s.log = Default::default();
                let full = Rc::new(s.clone());
                self.prune(&mut s, f, b);
                let k = self.key_of(&s, f, b);
                let d = self.node(f, b, k);
                self.edges.push(Edge { from: n, to: d, oi: oi as u32, atoms, body, ln, st: full });
            }
        }
        self.recording = false;
        self.done = true;
    }
    fn visit(&mut self, n: N) {
        if self.nodes[n as usize].ins.is_empty() {
            if self.nodes[n as usize].cur.is_some() {
                self.nodes[n as usize].cur = None;
                let outs = std::mem::take(&mut self.nodes[n as usize].outs);
                for (d, o) in outs {
                    if self.nodes[d as usize].ins.remove(&(n, o)).is_some() {
                        self.enqueue(d);
                    }
                }
            }
            return;
        }
        self.nodes[n as usize].visits += 1;
        let st = self.join(n);
        if let Some(c) = &self.nodes[n as usize].cur {
            if **c == st {
                return;
            }
        }
        let st = Rc::new(st);
        self.nodes[n as usize].cur = Some(st.clone());
        let outs = self.exec(n, &st);
        if self.trace {
            let nd = &self.nodes[n as usize];
            let (f, b, k) = (nd.frame, nd.block, nd.key);
            let bn = self.p.bodies[self.frames[f as usize].body].name.clone();
            let to: Vec<_> = outs.iter().map(|o| (o.0, o.1)).collect();
            eprintln!("node {n} f{f} b{b} k{k} {bn} -> {to:?}");
            for (r, v) in st.vals.iter() {
                let s = self.show(*v);
                eprintln!("     r{r} = {s}");
            }
        }
        let mut new: Vec<(N, u32)> = vec![];
        for (i, (f, b, s)) in outs.into_iter().enumerate() {
            let mut s = s;
            self.prune(&mut s, f, b);
            let k = self.key_of(&s, f, b);
            let d = self.node(f, b, k);
            new.push((d, i as u32));
            let dn = &mut self.nodes[d as usize];
            match dn.ins.get(&(n, i as u32)) {
                Some(o) if **o == s && dn.cur.is_some() => {}
                _ => {
                    dn.ins.insert((n, i as u32), Rc::new(s));
                    self.enqueue(d);
                }
            }
        }
        let old = std::mem::replace(&mut self.nodes[n as usize].outs, new.clone());
        for (d, o) in old {
            if !new.contains(&(d, o)) && self.nodes[n as usize].visits < 80 {
                if self.nodes[d as usize].ins.remove(&(n, o)).is_some() {
                    self.enqueue(d);
                }
            } else if !new.contains(&(d, o)) {
                self.nodes[n as usize].outs.push((d, o));
            }
        }
    }
    /// drop dead locals of the frame
    fn prune(&mut self, st: &mut St, fr: u32, block: u32) {
        let p = self.p;
        let f = &self.frames[fr as usize];
        let b = &p.bodies[f.body];
        let base = f.base;
        let dead: Vec<Root> = st
            .vals
            .range(base..base + b.locals.len() as u32)
            .map(|x| *x.0)
            .filter(|r| !b.live[block as usize][(*r - base) as usize])
            .collect();
        if !dead.is_empty() {
            let m = Rc::make_mut(&mut st.vals);
            for d in dead {
                m.remove(&d);
            }
        }
    }
    // ---- joins ------------------------------------------------------------
    fn slot(&mut self, n: N, r: Root, path: &[Pr]) -> u32 {
        let k = (n, r, path.to_vec());
        if let Some(s) = self.slots.get(&k) {
            return *s;
        }
        let s = self.slotkeys.len() as u32;
        self.slotkeys.push(k.clone());
        self.slots.insert(k, s);
        s
    }
    pub fn own_phi(&self, n: N, t: T) -> bool {
        self.tab.phis[t as usize].iter().any(|p| matches!(self.tab.k(*p), K::Phi(m, _) if *m == n))
    }
    fn join(&mut self, n: N) -> St {
        let edges: Vec<((N, u32), Rc<St>)> = self.nodes[n as usize].ins.iter().map(|(k, v)| (*k, v.clone())).collect();
        let is_head = {
            let nd = &self.nodes[n as usize];
            self.p.bodies[self.frames[nd.frame as usize].body].heads[nd.block as usize]
        };
        if edges.len() == 1 && self.nodes[n as usize].phis.is_empty() {
            let st = &edges[0].1;
            // a stale own phi can only appear at loop heads / re-entered joins
            if !is_head && !st.vals.values().any(|v| self.own_phi(n, *v)) {
                let mut s = (**st).clone();
                self.strip_own(n, &mut s);
                self.nodes[n as usize].pmap.clear();
                return s;
            }
        }
        // values
        let mut roots: Vec<Root> = edges[0].1.vals.keys().copied().collect();
        roots.retain(|r| edges.iter().all(|e| e.1.vals.contains_key(r)));
        let cells: Vec<(T, Root)> = self.cells.iter().filter(|c| !roots.contains(&c.1) && edges.iter().any(|e| e.1.vals.contains_key(&c.1))).copied().collect();
        roots.extend(cells.iter().map(|c| c.1));
        roots.sort();
        let mut vals = BTreeMap::new();
        let mut pm: BTreeMap<T, Vec<T>> = BTreeMap::new(); // phi -> value per edge
        for r in roots {
            let vs: Vec<T> = edges.iter().map(|e| e.1.vals.get(&r).copied().unwrap_or_else(|| cells.iter().find(|c| c.1 == r).unwrap().0)).collect();
            let ty = self.root_ty(n, r);
            let v = self.join_val(n, r, &mut vec![], &vs, &mut pm, 5, ty.as_deref());
            vals.insert(r, v);
        }
        let mut st = St { vals: Rc::new(vals), ..Default::default() };
        self.join_facts(n, &edges, &pm, &mut st);
        let mut pmap = BTreeMap::new();
        for (p, vs) in pm {
            let m: BTreeMap<(N, u32), T> = edges.iter().map(|e| e.0).zip(vs).collect();
            pmap.insert(p, m);
        }
        self.nodes[n as usize].pmap = pmap;
        st
    }
    fn root_ty(&self, n: N, r: Root) -> Option<Rc<str>> {
        let mut fr = self.nodes[n as usize].frame;
        loop {
            let f = &self.frames[fr as usize];
            let b = &self.p.bodies[f.body];
            if r >= f.base && r < f.base + b.locals.len() as u32 {
                return Some(b.locals[(r - f.base) as usize].0.clone());
            }
            match f.par {
                Some(c) => fr = self.nodes[c as usize].frame,
                None => return None,
            }
        }
    }
    fn strip_own(&mut self, n: N, st: &mut St) {
        let any = |e: &Self, t: T| e.own_phi(n, t);
        if st.eqc.keys().any(|t| any(self, *t)) {
            let m: BTreeMap<T, i128> = st.eqc.iter().filter(|x| !any(self, *x.0)).map(|x| (*x.0, *x.1)).collect();
            st.eqc = Rc::new(m);
        }
        if st.ne.iter().any(|t| any(self, t.0)) {
            let m = st.ne.iter().filter(|x| !any(self, x.0)).copied().collect();
            st.ne = Rc::new(m);
        }
        if st.lin.iter().any(|l| l.v.iter().any(|x| any(self, x.0))) {
            let m = st.lin.iter().filter(|l| !l.v.iter().any(|x| any(self, x.0))).cloned().collect();
            st.lin = Rc::new(m);
        }
    }
    fn join_val(&mut self, n: N, r: Root, path: &mut Vec<Pr>, vs: &[T], pm: &mut BTreeMap<T, Vec<T>>, depth: usize, ty: Option<&str>) -> T {
        let forced = self.nodes[n as usize].phis.get(&(r, path.clone())).copied();
        let own_self = |e: &Self, v: T| Some(v) == forced && matches!(e.tab.k(v), K::Phi(..));
        // edges carrying the node's own phi for this very slot unchanged do not count
        let eff: Vec<T> = vs.iter().copied().filter(|v| !own_self(self, *v)).collect();
        if forced.is_none() {
            let f = vs[0];
            if vs.iter().all(|v| *v == f) && !self.own_phi(n, f) {
                return f;
            }
            // structural
            if depth > 0 {
                if let Some(x) = self.join_struct(n, r, path, vs, pm, depth) {
                    return x;
                }
            }
        } else if eff.is_empty() {
            // unreachable in practice: only self edges
        }
        let phi = match forced {
            Some(p) => p,
            None => {
                let s = self.slot(n, r, path);
                let p = self.tab.mk(K::Phi(n, s));
                self.nodes[n as usize].phis.insert((r, path.clone()), p);
                // drop deeper phis: they are subsumed
                let pre = path.clone();
                self.nodes[n as usize].phis.retain(|(r2, q), _| !(*r2 == r && q.len() > pre.len() && q[..pre.len()] == pre[..]));
                p
            }
        };
        if self.tab.ty[phi as usize] == 0 {
            if path.is_empty() {
                if let Some(t) = ty {
                    self.type_val(phi, t);
                }
            }
            if self.tab.ty[phi as usize] == 0 {
                // common type of the joined values
                let nonint: Vec<T> = vs
                    .iter()
                    .copied()
                    .filter(|v| !matches!(self.tab.k(*v), K::Int(_)))
                    .collect();
                let tys: BTreeSet<S> = nonint.iter().map(|v| self.val_ty(*v)).collect();
                if tys.len() == 1 {
                    let t = *tys.iter().next().unwrap();
                    self.tab.ty[phi as usize] = t;
                }
            }
        }
        pm.insert(phi, vs.to_vec());
        phi
    }
    fn val_ty(&mut self, v: T) -> S {
        match self.tab.k(v).clone() {
            K::Agg(n, _, _) => {
                let s = self.tab.str(n).to_string();
                if s == "vec" || s == "tuple" {
                    return 0;
                }
                n
            }
            K::Lin(ref a, _) => {
                let mut t = 0;
                for (x, _) in a.iter() {
                    let u = self.tab.ty[*x as usize];
                    if t != 0 && u != t {
                        return 0;
                    }
                    t = u;
                }
                t
            }
            _ => self.tab.ty[v as usize],
        }
    }
    fn join_struct(&mut self, n: N, r: Root, path: &mut Vec<Pr>, vs: &[T], pm: &mut BTreeMap<T, Vec<T>>, depth: usize) -> Option<T> {
        // Agg of the same variant
        if let K::Agg(nm, var, a) = self.tab.k(vs[0]).clone() {
            let name = self.tab.str(nm).to_string();
            if name == "vec" {
                return None;
            }
            let mut rows = vec![];
            for v in vs {
                match self.tab.k(*v).clone() {
                    K::Agg(n2, v2, b) if n2 == nm && v2 == var && a.len() == b.len() => rows.push(b),
                    _ => return None,
                }
            }
            let isenum = self.p.adts.get(name.as_str()).map(|a| a.is_enum).unwrap_or(false);
            let mut out = vec![];
            for i in 0..a.len() {
                let col: Vec<T> = rows.iter().map(|b| b[i]).collect();
                path.push(Pr::F(if isenum { var as i32 } else { -1 }, i as u32));
                let x = self.join_val(n, r, path, &col, pm, depth - 1, None);
                path.pop();
                out.push(x);
            }
            return Some(self.tab.mk(K::Agg(nm, var, out.into())));
        }
        if let K::Clo(id, a) = self.tab.k(vs[0]).clone() {
            let mut rows = vec![];
            for v in vs {
                match self.tab.k(*v).clone() {
                    K::Clo(i2, b) if i2 == id && a.len() == b.len() => rows.push(b),
                    _ => return None,
                }
            }
            let mut out = vec![];
            for i in 0..a.len() {
                let col: Vec<T> = rows.iter().map(|b| b[i]).collect();
                path.push(Pr::F(-1, i as u32));
                let x = self.join_val(n, r, path, &col, pm, depth - 1, None);
                path.pop();
                out.push(x);
            }
            return Some(self.tab.mk(K::Clo(id, out.into())));
        }
        // field-update chains over a common base
        let mut base = vec![];
        let mut fields: BTreeSet<Pr> = BTreeSet::new();
        let mut any = false;
        for v in vs {
            let mut b = *v;
            while let K::Upd(x, p @ Pr::F(..), _) = self.tab.k(b).clone() {
                fields.insert(p);
                b = x;
                any = true;
            }
            base.push(b);
        }
        if !any || base.iter().any(|b| *b != base[0]) || fields.len() > 24 || self.own_phi(n, base[0]) {
            return None;
        }
        let mut acc = base[0];
        for f in fields {
            let col: Vec<T> = vs.iter().map(|v| self.tab.proj(*v, f)).collect();
            path.push(f);
            let x = self.join_val(n, r, path, &col, pm, depth - 1, None);
            path.pop();
            acc = self.tab.upd(acc, f, x);
        }
        Some(acc)
    }
    fn join_facts(&mut self, n: N, edges: &[((N, u32), Rc<St>)], pm: &BTreeMap<T, Vec<T>>, out: &mut St) {
        let visits = self.nodes[n as usize].visits;
        let ne = edges.len();
        let phis: Vec<T> = pm.keys().copied().collect();
        // integer phis (and lengths of collection phis) as derived slots
        let mut slots: Vec<(T, Vec<T>)> = vec![];
        for p in &phis {
            let vs = &pm[p];
            let intish = int_range(self.tab.tyname(*p)).is_some()
                || vs.iter().all(|v| matches!(self.tab.k(*v), K::Int(_) | K::Lin(..) | K::Len(_)) || int_range(self.tab.tyname(*v)).is_some());
            if intish {
                slots.push((*p, vs.clone()));
            } else if !matches!(self.tab.k(vs[0]), K::Ref(..) | K::Fn(_))
                && (vs.iter().any(|v| matches!(self.tab.k(*v), K::Push(..) | K::Bytes(_) | K::Slice(..)) || self.agg_name(*v) == Some("vec")))
            {
                let lp = self.tab.len(*p);
                let lv: Vec<T> = vs.iter().map(|v| self.tab.len(*v)).collect();
                slots.push((lp, lv));
            }
        }
        // boolean constants etc: eqc
        let mut eqc: BTreeMap<T, i128> = BTreeMap::new();
        let e0 = &edges[0].1;
        for (t, c) in e0.eqc.iter() {
            if self.own_phi(n, *t) {
                continue;
            }
            if edges[1..].iter().all(|e| e.1.eqc.get(t) == Some(c)) {
                eqc.insert(*t, *c);
            }
        }
        let mut nes: BTreeSet<(T, i128)> = BTreeSet::new();
        for (t, c) in e0.ne.iter() {
            if self.own_phi(n, *t) {
                continue;
            }
            if edges[1..].iter().all(|e| e.1.ne.contains(&(*t, *c)) || e.1.eqc.get(t).map(|v| v != c).unwrap_or(false)) {
                nes.insert((*t, *c));
            }
        }
        // candidates for linear facts
        let mut cand: BTreeSet<Rc<Lin>> = BTreeSet::new();
        let prev: Option<Rc<St>> = self.nodes[n as usize].cur.clone();
        if visits > 10 && prev.is_some() {
            // widening: only facts that were there before
            let pv = prev.clone().unwrap();
            cand = (*pv.lin).clone();
            eqc.retain(|t, c| pv.eqc.get(t) == Some(c));
            nes.retain(|x| pv.ne.contains(x));
        } else {
            for (j, e) in edges.iter().enumerate() {
                for l in e.1.lin.iter() {
                    if !l.v.iter().any(|x| self.own_phi(n, x.0)) {
                        cand.insert(l.clone());
                    }
                }
                // equalities known in one edge only
                for (t, c) in e.1.eqc.iter() {
                    if eqc.contains_key(t) || self.own_phi(n, *t) || self.is_cond(*t) || matches!(self.tab.k(*t), K::Discr(_)) {
                        continue;
                    }
                    if ne <= 4 {
                        cand.insert(Rc::new(Lin { v: vec![(*t, 1)], k: -c }));
                        cand.insert(Rc::new(Lin { v: vec![(*t, -1)], k: *c }));
                    }
                }
                // rename values to phis
                for (p, vs) in &slots {
                    let v = vs[j];
                    let l = self.tab.lin(v);
                    if l.v.len() == 1 && l.v[0].1.abs() == 1 {
                        let (a, s) = l.v[0];
                        // v = s*a + k  ->  a = s*(p - k)
                        let k = l.k;
                        let fs: Vec<Rc<Lin>> =
                            e.1.lin.iter().filter(|f| f.v.iter().any(|x| x.0 == a)).take(40).cloned().collect();
                        for f in fs {
                            let c = f.v.iter().find(|x| x.0 == a).unwrap().1;
                            let rest = Lin { v: f.v.iter().filter(|x| x.0 != a).copied().collect(), k: f.k };
                            // c*a = c*s*(p-k)
                            let pl = Lin { v: vec![(*p, 1)], k: -k };
                            if let Some(x) = rest.add(&pl, c * s) {
                                if !x.v.iter().any(|y| y.0 != *p && self.own_phi(n, y.0)) {
                                    cand.insert(Rc::new(x.norm()));
                                }
                            }
                        }
                    }
                    // bounds
                    if let Some(c) = self.tab.as_int(v) {
                        cand.insert(Rc::new(Lin { v: vec![(*p, 1)], k: -c }));
                        cand.insert(Rc::new(Lin { v: vec![(*p, -1)], k: c }));
                    } else if !self.own_phi(n, v) {
                        // p <= v , p >= v
                        if let Some(x) = (Lin { v: vec![(*p, 1)], k: 0 }).add(&l, -1) {
                            if let Some(y) = x.scale(-1) {
                                cand.insert(Rc::new(y.norm()));
                            }
                            cand.insert(Rc::new(x.norm()));
                        }
                    }
                }
            }
            // lock-step relations between integer slots: c2*p - c1*q = const
            if slots.len() <= 12 {
                for i in 0..slots.len() {
                    for j in i + 1..slots.len() {
                        let (p, vp) = (&slots[i].0, &slots[i].1);
                        let (q, vq) = (&slots[j].0, &slots[j].1);
                        let mut steps: BTreeSet<(i128, i128)> = BTreeSet::new();
                        steps.insert((1, 1));
                        for e in 0..ne {
                            let (Some(a), Some(b)) = (
                                self.tab.lin(vp[e]).add(&self.tab.lin(*p), -1),
                                self.tab.lin(vq[e]).add(&self.tab.lin(*q), -1),
                            ) else {
                                continue;
                            };
                            if a.v.is_empty() && b.v.is_empty() && a.k != 0 && b.k != 0 {
                                steps.insert((a.k, b.k));
                            }
                        }
                        for (sa, sb) in steps {
                            // sb*p - sa*q const ?
                            let mut ds: Vec<Lin> = vec![];
                            for e in 0..ne {
                                let (Some(x), Some(y)) = (self.tab.lin(vp[e]).scale(sb), self.tab.lin(vq[e]).scale(sa)) else { continue };
                                if let Some(d) = x.add(&y, -1) {
                                    if !d.v.iter().any(|z| self.own_phi(n, z.0)) && d.v.len() <= 3 {
                                        ds.push(d);
                                    }
                                }
                            }
                            ds.sort();
                            ds.dedup();
                            for d in ds {
                                let (Some(x), Some(y)) = (
                                    (Lin { v: vec![(*p, 1)], k: 0 }).scale(sb),
                                    (Lin { v: vec![(*q, 1)], k: 0 }).scale(sa),
                                ) else {
                                    continue;
                                };
                                if let Some(r) = x.add(&y, -1).and_then(|r| r.add(&d, -1)) {
                                    if let Some(m) = r.scale(-1) {
                                        cand.insert(Rc::new(m.norm()));
                                    }
                                    cand.insert(Rc::new(r.norm()));
                                }
                            }
                        }
                    }
                }
            }
        }
        // keep the candidates every edge entails (with phi -> value of the edge)
        let mut keep: BTreeSet<Rc<Lin>> = BTreeSet::new();
        let mut slotmap: HashMap<T, usize> = HashMap::new();
        for (i, s) in slots.iter().enumerate() {
            slotmap.insert(s.0, i);
        }
        'c: for l in cand {
            if l.v.is_empty() {
                continue;
            }
            for (j, e) in edges.iter().enumerate() {
                let direct = !l.v.iter().any(|x| self.own_phi(n, x.0));
                if direct && e.1.lin.contains(&l) {
                    continue;
                }
                let mut m = Lin::c(l.k);
                for (t, c) in &l.v {
                    let rep = match slotmap.get(t) {
                        Some(i) => self.tab.lin(slots[*i].1[j]),
                        None => {
                            if self.own_phi(n, *t) {
                                // a compound over own phis: substitute
                                let map: HashMap<T, T> = pm.iter().map(|(p, vs)| (*p, vs[j])).collect();
                                let mut memo = HashMap::new();
                                let x = self.tab.subst(*t, &map, &mut memo);
                                self.tab.lin(x)
                            } else {
                                Lin { v: vec![(*t, 1)], k: 0 }
                            }
                        }
                    };
                    match m.add(&rep, *c) {
                        Some(x) => m = x,
                        None => continue 'c,
                    }
                }
                // facts of the edge that mention the own phi speak about the old value, so do the substituted values
                if !Ent::new(&mut self.tab, &e.1).entails(&m) {
                    continue 'c;
                }
            }
            keep.insert(l);
        }
        // only the strongest of each direction
        let mut best: Vec<Rc<Lin>> = vec![];
        for l in keep.iter() {
            match best.last_mut() {
                Some(b) if b.v == l.v => *b = l.clone(),
                _ => best.push(l.clone()),
            }
        }
        keep = best.into_iter().collect();
        if visits > 40 {
            // exact intersection with what was there before
            if let Some(pv) = prev {
                keep.retain(|l| pv.lin.contains(l));
            }
        }
        // known constants of phis
        for (p, vs) in pm {
            let cs: BTreeSet<Option<i128>> = vs.iter().map(|v| self.tab.as_int(*v)).collect();
            let _ = (p, cs);
        }
        // discriminants known for a phi on every edge
        for (p, vs) in pm {
            let tn = self.tab.tyname(*p).split('<').next().unwrap_or("").to_string();
            let mut ds = BTreeSet::new();
            for (j, e) in edges.iter().enumerate() {
                let d = match self.tab.k(vs[j]).clone() {
                    K::Agg(nm, i, _) => {
                        let name = self.tab.str(nm).to_string();
                        self.p.adts.get(name.as_str()).filter(|a| a.is_enum).map(|a| a.vars[i as usize].discr)
                    }
                    _ => {
                        let dt = self.tab.mk(K::Discr(vs[j]));
                        e.1.eqc.get(&dt).copied()
                    }
                };
                ds.insert(d);
            }
            if ds.len() == 1 {
                if let Some(Some(d)) = ds.into_iter().next() {
                    let dt = self.tab.mk(K::Discr(*p));
                    if let Some((k, _)) = self.p.adts.get_key_value(tn.as_str()) {
                        self.discr_adt.insert(dt, k.clone());
                    }
                    if visits <= 10 || self.nodes[n as usize].cur.as_ref().map(|c| c.eqc.contains_key(&dt)).unwrap_or(true) {
                        eqc.insert(dt, d);
                    }
                }
            }
        }
        out.eqc = Rc::new(eqc);
        out.ne = Rc::new(nes);
        out.lin = Rc::new(keep);
    }
    // ---- terminators -------------------------------------------------------
    pub fn site(&mut self, cx: &Cx, kind: &str, what: String, ok: bool) {
        if self.recording {
            self.sites.push(Site {
                frame: cx.frame,
                body: cx.body,
                block: cx.block,
                kind: kind.to_string(),
                what,
                ln: cx.ln,
                ok,
                node: cx.node,
            });
        }
    }
    fn exec(&mut self, n: N, st0: &Rc<St>) -> Vec<(u32, u32, St)> {
        let p = self.p;
        let (fr, bi) = {
            let nd = &self.nodes[n as usize];
            (nd.frame, nd.block)
        };
        let body = self.frames[fr as usize].body;
        let Some(k) = &p.bodies[body].blocks[bi as usize] else { return vec![] };
        let mut st = (**st0).clone();
        for s in &k.s {
            self.stmt(&mut st, fr, s);
        }
        let cx = Cx { node: n, frame: fr, body, block: bi, ln: k.ln };
        match &k.t {
            Term::Goto(x) => vec![(fr, *x, st)],
            Term::Drop(pl, x) => {
                if pl.p.is_empty() {
                    let r = self.frames[fr as usize].base + pl.l;
                    Rc::make_mut(&mut st.vals).remove(&r);
                }
                vec![(fr, *x, st)]
            }
            Term::Unreachable | Term::Other => vec![],
            Term::Switch(o, ts, e, dty) => {
                let v = self.opnd(&st, fr, o);
                let v = self.deref_val(&st, v);
                let mut out = vec![];
                if &**dty == "bool" {
                    for (c, b) in ts {
                        let mut s = st.clone();
                        if self.assume(&mut s, v, *c != 0) {
                            out.push((fr, *b, s));
                        }
                    }
                    let c = ts[0].0;
                    let mut s = st;
                    if self.assume(&mut s, v, c == 0) {
                        out.push((fr, *e, s));
                    }
                    return out;
                }
                if let Some(i) = self.tab.as_int(v) {
                    for (c, b) in ts {
                        if *c == i {
                            return vec![(fr, *b, st)];
                        }
                    }
                    return vec![(fr, *e, st)];
                }
                let mut rest = Some(st.clone());
                for (c, b) in ts {
                    let mut s = st.clone();
                    if self.assume_eq(&mut s, v, *c) {
                        out.push((fr, *b, s));
                    }
                    if let Some(mut r) = rest.take() {
                        if self.assume_ne(&mut r, v, *c) {
                            rest = Some(r);
                        }
                    }
                }
                if let Some(r) = rest {
                    let dead = matches!(&p.bodies[body].blocks[*e as usize], Some(Block { t: Term::Unreachable, s, .. }) if s.is_empty());
                    if !dead {
                        out.push((fr, *e, r));
                    }
                }
                out
            }
            Term::Assert(c, want, msg, to) => {
                let v = self.opnd(&st, fr, c);
                let t = self.truth(&st, v);
                let ok = t == Some(*want);
                let (kind, what) = match msg {
                    Msg::Bounds(l, i) => {
                        if self.recording && !ok {
                            let l = self.opnd(&st, fr, l);
                            let i = self.opnd(&st, fr, i);
                            ("index", format!("{} of len {}", self.show(i), self.show(l)))
                        } else {
                            ("index", String::new())
                        }
                    }
                    Msg::Overflow(op, a, b, ty) => {
                        if self.recording && !ok {
                            let a = self.opnd(&st, fr, a);
                            let b = self.opnd(&st, fr, b);
                            ("overflow", format!("{} {} {} : {}", self.show(a), op, self.show(b), ty))
                        } else {
                            ("overflow", format!("{op} {ty}"))
                        }
                    }
                    Msg::Neg(_) => ("overflow", "neg".into()),
                    Msg::Div0(_) => ("div0", "".into()),
                    Msg::Other => ("assert", "".into()),
                };
                self.site(&cx, kind, what, ok);
                // a sum that does not overflow is nobody's requirement
                let log = matches!(msg, Msg::Overflow(..)).then(|| st.log.clone());
                if !self.assume(&mut st, v, *want) {
                    return vec![];
                }
                if let Some(l) = log {
                    st.log = l;
                }
                vec![(fr, *to, st)]
            }
            Term::Ret => {
                let base = self.frames[fr as usize].base;
                let rty = p.bodies[body].locals[0].0.clone();
                let ret = if &*rty == "()" { self.tab.unit() } else { self.load(&st, base, &[]) };
                self.type_val(ret, &rty);
                match self.frames[fr as usize].par {
                    None => {
                        if self.recording {
                            let ret = self.resolve(&st, ret, 6);
                            self.exits.push(Exit { node: n, st: Rc::new(st), ret });
                        }
                        vec![]
                    }
                    Some(caller) => {
                        let nl = p.bodies[body].locals.len() as u32;
                        let gone: Vec<Root> = st.vals.range(base..base + nl).map(|x| *x.0).collect();
                        let m = Rc::make_mut(&mut st.vals);
                        for g in gone {
                            m.remove(&g);
                        }
                        let (cf, cb) = {
                            let c = &self.nodes[caller as usize];
                            (c.frame, c.block)
                        };
                        let cbody = self.frames[cf as usize].body;
                        let Some(Block { t: Term::Call(_, _, d, Some(to)), .. }) = &p.bodies[cbody].blocks[cb as usize] else {
                            return vec![];
                        };
                        let (r, q) = self.lvalue(&st, cf, d);
                        if d.p.is_empty() {
                            let ty = p.bodies[cbody].locals[d.l as usize].0.clone();
                            self.type_val(ret, &ty);
                        }
                        self.store(&mut st, r, &q, ret);
                        vec![(cf, *to, st)]
                    }
                }
            }
            Term::Call(f, a, d, to) => {
                let args: Vec<T> = a.iter().map(|o| self.opnd(&st, fr, o)).collect();
                self.destunit = d.p.is_empty() && &*p.bodies[body].locals[d.l as usize].0 == "()";
                if self.recording && self.cfg.auto {
                    let ls = &p.bodies[body].locals;
                    let writes = a.iter().any(|o| matches!(o, Opnd::Copy(x) | Opnd::Move(x) if x.p.is_empty() && ls[x.l as usize].0.starts_with("&mut ")));
                    self.destty = if d.p.is_empty() && !writes { ls[d.l as usize].0.to_string() } else { String::new() };
                }
                let r = self.call(&cx, st, f, &args, a);
                match r {
                    CallR::Vals(vs) => {
                        let Some(to) = to else { return vec![] };
                        let mut out = vec![];
                        for (mut s, v) in vs {
                            let (r, q) = self.lvalue(&s, fr, d);
                            if d.p.is_empty() {
                                let ty = p.bodies[body].locals[d.l as usize].0.clone();
                                self.type_val(v, &ty);
                            }
                            self.store(&mut s, r, &q, v);
                            out.push((fr, *to, s));
                        }
                        out
                    }
                    CallR::Inline(b, args) => {
                        let f2 = self.frame_for(n, b);
                        let base = self.frames[f2 as usize].base;
                        let mut st = (**st0).clone();
                        for s in &k.s {
                            self.stmt(&mut st, fr, s);
                        }
                        if let Some(to) = to {
                            // locals that are dead after the call
                            let bb = &p.bodies[body];
                            let cb = self.frames[fr as usize].base;
                            let dead: Vec<Root> = st
                                .vals
                                .range(cb..cb + bb.locals.len() as u32)
                                .map(|x| *x.0)
                                .filter(|r| {
                                    let l = (*r - cb) as usize;
                                    !bb.live[*to as usize][l] && !d.p.iter().any(|x| matches!(x, P::I(i) if *i as usize == l)) && d.l as usize != l
                                })
                                .collect();
                            let m = Rc::make_mut(&mut st.vals);
                            for x in dead {
                                m.remove(&x);
                            }
                        }
                        for (i, v) in args.iter().enumerate() {
                            let ty = p.bodies[b].locals[i + 1].0.clone();
                            self.type_val(*v, &ty);
                            Rc::make_mut(&mut st.vals).insert(base + i as u32 + 1, *v);
                        }
                        vec![(f2, 0, st)]
                    }
                }
            }
        }
    }
    fn call(&mut self, cx: &Cx, st: St, f: &Opnd, args: &[T], raw: &[Opnd]) -> CallR {
        let _ = raw;
        match f {
            Opnd::K(Cst::Fn(f)) => {
                let f = f.clone();
                self.call_fn(cx, st, &f, args)
            }
            _ => {
                let v = self.opnd(&st, cx.frame, f);
                self.call_val(cx, st, v, args)
            }
        }
    }
    /// call a function value (closure, fn item, constructor)
    pub fn call_val(&mut self, cx: &Cx, st: St, v: T, args: &[T]) -> CallR {
        let fv = self.deref_val(&st, v);
        match self.tab.k(fv).clone() {
            K::Fn(i) => {
                let f = self.fns[i as usize].clone();
                self.call_fn(cx, st, &f, args)
            }
            K::Clo(i, _) => {
                let id = self.clos[i as usize].clone();
                if let Some(&b) = self.p.byid.get(&id) {
                    let argc = self.p.bodies[b].argc;
                    let mut a = vec![v];
                    a.extend_from_slice(args);
                    if a.len() == argc && self.in_stack(cx.frame, b) < 2 && self.frames[cx.frame as usize].depth < self.cfg.depth + 10 {
                        return CallR::Inline(b, a);
                    }
                }
                self.opaque(cx, st, "closure", args)
            }
            _ => {
                let mut a = vec![fv];
                a.extend_from_slice(args);
                self.opaque(cx, st, "call", &a)
            }
        }
    }
    pub fn opaque(&mut self, cx: &Cx, mut st: St, name: &str, args: &[T]) -> CallR {
        let ra: Vec<T> = args.iter().map(|a| self.resolve(&st, *a, 4)).collect();
        if self.recording {
            let eff = self.acts_unseen(name) || self.cfg.auto && self.effectful(&st, name, args);
            *self.opaque_calls.entry(name.to_string()).or_insert(0) += 1;
            self.events.push(Event { node: cx.node, name: name.into(), args: ra.clone(), st: Rc::new(st.clone()), ln: cx.ln, entered: false, eff });
        }
        self.havoc_refs(&mut st, name, args, &ra);
        let t = self.tab.op(name, &ra);
        CallR::Vals(vec![(st, t)])
    }
    /// a call that acts where no value shows it: through a shared cell, on the
    /// file system, or by calling what the caller handed in
    fn acts_unseen(&self, name: &str) -> bool {
        name.contains("cell::Cell") && name.ends_with("::set") || ["std::fs::remove", "std::fs::create", "std::fs::rename"].iter().any(|x| name.starts_with(x)) || name == "call" && self.destunit
    }
    /// a call whose result carries no value and that is given nothing to write
    /// to is made for its effect
    fn effectful(&mut self, st: &St, name: &str, args: &[T]) -> bool {
        if !name.starts_with("grovedb") && !name.starts_with("rocksdb") {
            return false;
        }
        let _ = (st, args);
        let ty = self.destty.as_str();
        ty == "()" || ty.contains("Result<(), ") || ty.ends_with("CostContext<()>")
    }
    fn is_opaque(&self, name: &str) -> bool {
        self.cfg.opaque.iter().any(|o| name.contains(o.as_str())) || !self.cfg.bounds.is_empty() && self.cfg.bounds.contains(name)
    }
    pub fn call_fn(&mut self, cx: &Cx, st: St, f: &Rc<FnRef>, args: &[T]) -> CallR {
        // function-call traits on values
        if let (Some(tr), Some(m)) = (&f.tr, &f.m) {
            if tr.starts_with("core::ops::function::Fn") && m.starts_with("call") {
                let tup = self.deref_val(&st, args[1]);
                let inner = match self.tab.k(tup).clone() {
                    K::Agg(_, _, a) => a.to_vec(),
                    _ => vec![tup],
                };
                return self.call_val(cx, st, args[0], &inner);
            }
        }
        // constructors
        if let Some((adt, v)) = self.p.ctors.get(&f.norm).cloned() {
            let t = self.tab.agg(&adt, v, args);
            return CallR::Vals(vec![(st, t)]);
        }
        if f.norm.starts_with("sa_models::__") {
            if let Some(r) = self.native(cx, st.clone(), f, args) {
                return CallR::Vals(r);
            }
        }
        let target = f.rid.clone().or_else(|| if f.tr.is_none() { Some(f.id.clone()) } else { None });
        if let Some(b) = target.as_ref().and_then(|id| self.p.byid.get(id)).copied() {
            return self.call_body(cx, st, b, f, args);
        }
        if let Some(r) = self.native(cx, st.clone(), f, args) {
            return CallR::Vals(r);
        }
        if f.norm.starts_with("sa_models::It::nx") {
            // an adapter over an iterator the workspace defines
            let mut a0 = args[0];
            for _ in 0..4 {
                if let K::Ref(r, p) = self.tab.k(a0).clone() {
                    let x = self.load(&st, r, &p);
                    if let K::Ref(..) = self.tab.k(x) {
                        a0 = x;
                        continue;
                    }
                }
                break;
            }
            let v = self.deref_val(&st, a0);
            if let Some(b) = self.ws_iter(v) {
                return self.call_body(cx, st, b, f, &[a0]);
            }
        }
        if let Some((b, a)) = self.model(cx, &st, f, args) {
            return match b {
                Ok(b) => CallR::Inline(b, a),
                Err(v) => self.call_val(cx, st, v, &a),
            };
        }
        // unresolved trait method: dispatch on the receiver's value
        if let (Some(tr), Some(m)) = (f.tr.clone(), f.m.clone()) {
            if let Some(b) = self.dispatch(&st, &tr, &m, args) {
                return self.call_body(cx, st, b, f, args);
            }
            // provided method of a workspace trait
            if let Some(&b) = self.p.byid.get(&f.id) {
                return self.call_body(cx, st, b, f, args);
            }
        }
        let n = f.rname.as_ref().map(|r| norm(r)).filter(|r| !r.is_empty() && r.contains("::") && f.tr.is_none()).unwrap_or_else(|| f.norm.to_string());
        // what constants of the program an outside function is instantiated with
        let n = if f.gc.is_empty() || n.starts_with("core::") || n.starts_with("alloc::") { n } else { format!("{n}::<{}>", f.gc.join(",")) };
        self.opaque(cx, st, &n, args)
    }
    fn dispatch(&mut self, st: &St, tr: &str, m: &str, args: &[T]) -> Option<usize> {
        let a0 = *args.first()?;
        let v = self.deref_val(st, a0);
        let ids = self.imap.get(&(norm(tr), m.to_string()))?.clone();
        let ty = match self.tab.k(v) {
            K::Agg(n, _, _) => self.tab.str(*n).to_string(),
            _ => norm(self.tab.tyname(v)),
        };
        if ty.is_empty() {
            return None;
        }
        for im in &self.p.impls {
            if im.tr.as_deref().map(norm).as_deref() == Some(&norm(tr)) && norm(&im.selfty) == ty {
                if let Some(id) = im.m.get(m) {
                    if ids.contains(id) {
                        return self.p.byid.get(id).copied();
                    }
                }
            }
        }
        None
    }
    fn call_body(&mut self, cx: &Cx, st: St, b: usize, f: &Rc<FnRef>, args: &[T]) -> CallR {
        let p = self.p;
        let body = &p.bodies[b];
        if let Some(tr) = p.derived.get(&body.id) {
            let tr = norm(tr);
            match tr.as_str() {
                "core::clone::Clone" => {
                    let v = self.deref_val(&st, args[0]);
                    return CallR::Vals(vec![(st, v)]);
                }
                "core::cmp::PartialEq" => {
                    let e = self.val_eq(&st, args[0], args[1]);
                    let e = if body.name.ends_with("::ne") { self.tab.not(e) } else { e };
                    return CallR::Vals(vec![(st, e)]);
                }
                "core::fmt::Debug" | "core::hash::Hash" | "core::cmp::PartialOrd" | "core::cmp::Ord" => {
                    if let Some(r) = self.native(cx, st.clone(), f, args) {
                        return CallR::Vals(r);
                    }
                    return self.opaque(cx, st, &norm(&f.name), args);
                }
                _ => {}
            }
        }
        let depth = self.frames[cx.frame as usize].depth;
        let name = norm(&body.name);
        if body.name.contains("StorageRemovedBytes as core::ops::arith::Add") {
            // sums of removed bytes are judged where they are defined
            let x = self.deref_val(&st, args[0]);
            let y = self.resolve(&st, args[1], 4);
            let v = self.tab.op("removed+", &[x, y]);
            if name.ends_with("::add_assign") || body.name.ends_with("::add_assign") {
                if let K::Ref(r, p) = self.tab.k(args[0]).clone() {
                    let mut st = st;
                    self.store(&mut st, r, &p, v);
                    let u = self.tab.unit();
                    return CallR::Vals(vec![(st, u)]);
                }
            } else {
                return CallR::Vals(vec![(st, v)]);
            }
        }
        if body.argc != args.len()
            || depth >= self.cfg.depth
            || self.in_stack(cx.frame, b) >= 1
            || self.is_opaque(&body.name)
            || name.ends_with("::fmt")
        {
            let nm = match self.cfg.alias.get(&*body.name) {
                Some(n) => canon_name(n),
                None => canon_name(&body.name),
            };
            return self.opaque(cx, st, &nm, args);
        }
        if self.recording {
            let ra: Vec<T> = args.iter().map(|a| self.resolve(&st, *a, 4)).collect();
            self.events.push(Event { node: cx.node, name: canon_name(&body.name).into(), args: ra, st: Rc::new(st.clone()), ln: cx.ln, entered: true, eff: false });
        }
        CallR::Inline(b, args.to_vec())
    }
}

/// printable function name: generics dropped, `<impl T for X>::m` kept as `X::m`
pub fn canon_name(n: &str) -> String {
    if let Some(rest) = n.strip_prefix('<') {
        // <X as T>::m
        let mut d = 1;
        for (i, c) in rest.char_indices() {
            match c {
                '<' => d += 1,
                '>' => d -= 1,
                _ => {}
            }
            if d == 0 {
                let inner = &rest[..i];
                let tail = &rest[i + 1..];
                let x = inner.split(" as ").next().unwrap_or(inner);
                return format!("{}{}", norm(x), norm(&format!("x{tail}")).trim_start_matches('x'));
            }
        }
    }
    norm(n)
}
