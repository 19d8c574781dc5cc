//! Facts (JSON written by the rustc driver) -> compact bodies.
use serde_json::Value;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum P {
    D,
    F(u32, Rc<str>, Rc<str>),
    I(u32),
    CI(u64, bool),
    Sub(u64, u64, bool),
    V(u32),
}
#[derive(Clone, Debug)]
pub struct Place {
    pub l: u32,
    pub p: Vec<P>,
}
#[derive(Clone, Debug)]
pub struct FnRef {
    pub id: Rc<str>,
    pub name: Rc<str>,
    pub norm: Rc<str>,
    pub rid: Option<Rc<str>>,
    pub rname: Option<Rc<str>>,
    pub tr: Option<Rc<str>>,
    pub m: Option<Rc<str>>,
    pub ga: Vec<Rc<str>>,
    pub gc: Vec<Rc<str>>,
    pub virt: bool,
}
#[derive(Clone, Debug)]
pub enum Cst {
    Int(i128, Rc<str>),
    Bytes(Rc<[u8]>),
    Str(Rc<str>),
    Fn(Rc<FnRef>),
    Promoted(String),
    Other(Rc<str>, Rc<str>),
}
#[derive(Clone, Debug)]
pub enum Opnd {
    Copy(Place),
    Move(Place),
    K(Cst),
}
#[derive(Clone, Debug)]
pub enum AggK {
    Adt(Rc<str>, u32, Vec<Rc<str>>),
    Tuple,
    Array,
    Clo(Rc<str>),
    Other,
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opnd),
    Repeat(Opnd, Option<u64>),
    Ref(Place, bool),
    Raw(Place),
    Cast(Rc<str>, Opnd, Rc<str>, Rc<str>),
    Bin(Rc<str>, Opnd, Opnd, Rc<str>),
    Un(Rc<str>, Opnd),
    Discr(Place, Rc<str>),
    Agg(AggK, Vec<Opnd>),
    SetD(u32),
    Dead,
    Other,
}
#[derive(Clone, Debug)]
pub struct Stmt {
    pub ln: u32,
    pub pl: Place,
    pub rv: Rv,
    pub mac: Option<Rc<str>>,
}
#[derive(Clone, Debug)]
pub enum Msg {
    Bounds(Opnd, Opnd),
    Overflow(Rc<str>, Opnd, Opnd, Rc<str>),
    Neg(Opnd),
    Div0(Opnd),
    Other,
}
#[derive(Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch(Opnd, Vec<(i128, u32)>, u32, Rc<str>),
    Ret,
    Unreachable,
    Drop(Place, u32),
    Call(Opnd, Vec<Opnd>, Place, Option<u32>),
    Assert(Opnd, bool, Msg, u32),
    Other,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub s: Vec<Stmt>,
    pub t: Term,
    pub ln: u32,
    pub mac: Option<Rc<str>>,
}
#[derive(Debug)]
pub struct Body {
    pub id: Rc<str>,
    pub name: Rc<str>,
    pub file: Rc<str>,
    pub line: u32,
    pub argc: usize,
    pub locals: Vec<(Rc<str>, Option<Rc<str>>)>,
    pub blocks: Vec<Option<Block>>,
    pub krate: Rc<str>,
    pub intrait: bool,
    pub reach: bool,
    pub mac: Option<Rc<str>>,
    pub itrait: Option<Rc<str>>,
    // derived
    pub rpo: Vec<u32>,
    pub heads: Vec<bool>,
    pub live: Vec<Vec<bool>>,
    pub keyloc: Vec<u8>, // 1 = enum-typed / 2 = bool participates in the partition key
    pub addr: Vec<bool>,
}
pub struct Variant {
    pub name: Rc<str>,
    pub discr: i128,
    pub fields: Vec<(Rc<str>, Rc<str>)>,
}
pub struct Adt {
    pub name: Rc<str>,
    pub is_enum: bool,
    pub vars: Vec<Variant>,
}
pub struct Impl {
    pub selfty: Rc<str>,
    pub tr: Option<Rc<str>>,
    pub m: HashMap<String, Rc<str>>,
    pub derived: bool,
}
#[derive(Default)]
pub struct Prog {
    pub bodies: Vec<Body>,
    pub byid: HashMap<Rc<str>, usize>,
    pub adts: HashMap<Rc<str>, Adt>,
    pub impls: Vec<Impl>,
    pub derived: HashMap<Rc<str>, Rc<str>>, // method id -> trait
    pub ctors: HashMap<Rc<str>, (Rc<str>, u32)>,
    intern: HashMap<String, Rc<str>>,
}

/// `core::option::Option::<T>::map` -> `core::option::Option::map`
pub fn norm(n: &str) -> String {
    let mut out = String::new();
    let mut d = 0i32;
    let mut prev = ' ';
    for c in n.chars() {
        match c {
            '<' => d += 1,
            '>' if prev == '-' => {}
            '>' => d -= 1,
            _ if d == 0 => out.push(c),
            _ => {}
        }
        prev = c;
    }
    while out.contains("::::") {
        out = out.replace("::::", "::");
    }
    out.trim_end_matches(':').trim_start_matches(':').to_string()
}

impl Prog {
    fn s(&mut self, s: &str) -> Rc<str> {
        if let Some(x) = self.intern.get(s) {
            return x.clone();
        }
        let r: Rc<str> = s.into();
        self.intern.insert(s.to_string(), r.clone());
        r
    }
    fn sv(&mut self, v: &Value) -> Rc<str> {
        let s = v.as_str().unwrap_or("").to_string();
        self.s(&s)
    }
    fn place(&mut self, v: &Value) -> Place {
        let a = v.as_array().unwrap();
        let l = a[0].as_u64().unwrap() as u32;
        let mut p = vec![];
        for x in &a[1..] {
            let x = x.as_array().unwrap();
            p.push(match x[0].as_str().unwrap() {
                "d" => P::D,
                "f" => P::F(x[1].as_u64().unwrap() as u32, self.sv(&x[2]), self.sv(&x[3])),
                "i" => P::I(x[1].as_u64().unwrap() as u32),
                "ci" => P::CI(x[1].as_u64().unwrap(), truth(&x[2])),
                "s" => P::Sub(x[1].as_u64().unwrap(), x[2].as_u64().unwrap(), truth(&x[3])),
                "v" => P::V(x[1].as_u64().unwrap() as u32),
                _ => continue,
            });
        }
        Place { l, p }
    }
    fn fnref(&mut self, f: &Value) -> FnRef {
        let name = self.sv(&f["name"]);
        let n = norm(&name);
        FnRef {
            id: self.sv(&f["id"]),
            norm: self.s(&n),
            name,
            rid: f["rid"].as_str().map(|s| s.to_string()).map(|s| self.s(&s)),
            rname: f["rname"].as_str().map(|s| s.to_string()).map(|s| self.s(&s)),
            tr: f["trait"].as_str().map(|s| s.to_string()).map(|s| self.s(&s)),
            m: f["m"].as_str().map(|s| s.to_string()).map(|s| self.s(&s)),
            ga: f["ga"].as_array().map(|a| a.iter().map(|x| self.sv(x)).collect()).unwrap_or_default(),
            gc: f["gc"].as_array().map(|a| a.iter().map(|x| self.sv(x)).collect()).unwrap_or_default(),
            virt: f.get("virt").is_some(),
        }
    }
    fn opnd(&mut self, v: &Value) -> Opnd {
        let a = v.as_array().unwrap();
        match a[0].as_str().unwrap() {
            "c" => Opnd::Copy(self.place(&a[1])),
            "m" => Opnd::Move(self.place(&a[1])),
            _ => {
                let k = &a[1];
                if let Some(f) = k.get("fn") {
                    let fr = self.fnref(f);
                    return Opnd::K(Cst::Fn(Rc::new(fr)));
                }
                let ty = self.sv(&k["ty"]);
                if let Some(i) = k.get("int") {
                    let n: i128 = i.to_string().parse().unwrap_or(i128::MAX);
                    return Opnd::K(Cst::Int(n, ty));
                }
                if let Some(p) = k.get("promoted") {
                    if k.get("bytes").is_none() && k.get("str").is_none() && k.get("mem").is_none() {
                        return Opnd::K(Cst::Promoted(format!("{}::{{promoted#{}}}", k["of"].as_str().unwrap(), p)));
                    }
                    // promoted bodies keep more structure than raw bytes
                    return Opnd::K(Cst::Promoted(format!("{}::{{promoted#{}}}", k["of"].as_str().unwrap(), p)));
                }
                if let Some(s) = k.get("str") {
                    return Opnd::K(Cst::Str(self.sv(s)));
                }
                for key in ["bytes", "mem"] {
                    if let Some(b) = k.get(key) {
                        if key == "bytes" || ty.starts_with("[u8;") {
                            let v: Vec<u8> = b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                            return Opnd::K(Cst::Bytes(v.into()));
                        }
                        let item = k["item"].as_str().unwrap_or("").to_string();
                        let nm = if item.is_empty() { format!("mem{}", b) } else { item };
                        return Opnd::K(Cst::Other(self.s(&nm), ty));
                    }
                }
                if k.get("zst").is_some() {
                    let n = format!("zst:{ty}");
                    return Opnd::K(Cst::Other(self.s(&n), ty));
                }
                let item = match k.get("item") {
                    Some(i) => match k.get("cself") {
                        Some(c) => format!("{}@{}", i.as_str().unwrap(), c.as_str().unwrap_or("")),
                        None => i.as_str().unwrap().to_string(),
                    },
                    None => match k.get("tyconst") {
                        Some(t) => format!("const:{}", t.as_str().unwrap_or("")),
                        None => match k.get("rt") {
                            Some(r) => format!("rt:{}", r),
                            None => format!("const:{ty}"),
                        },
                    },
                };
                Opnd::K(Cst::Other(self.s(&item), ty))
            }
        }
    }
    fn rvalue(&mut self, v: &Value) -> Rv {
        let a = v.as_array().unwrap();
        match a[0].as_str().unwrap() {
            "use" => Rv::Use(self.opnd(&a[1])),
            "repeat" => Rv::Repeat(self.opnd(&a[1]), a[2].as_u64()),
            "ref" => Rv::Ref(self.place(&a[1]), truth(&a[2])),
            "raw" => Rv::Raw(self.place(&a[1])),
            "cast" => Rv::Cast(self.sv(&a[1]), self.opnd(&a[2]), self.sv(&a[3]), self.sv(&a[4])),
            "bin" => Rv::Bin(self.sv(&a[1]), self.opnd(&a[2]), self.opnd(&a[3]), self.sv(&a[4])),
            "un" => Rv::Un(self.sv(&a[1]), self.opnd(&a[2])),
            "discr" => Rv::Discr(self.place(&a[1]), self.sv(&a[2])),
            "agg" => {
                let k = a[1].as_array().unwrap();
                let kk = match k[0].as_str().unwrap() {
                    "adt" => {
                        let names = k[4].as_array().unwrap().iter().map(|x| self.sv(x)).collect();
                        AggK::Adt(self.sv(&k[1]), k[2].as_u64().unwrap() as u32, names)
                    }
                    "tuple" => AggK::Tuple,
                    "array" => AggK::Array,
                    "closure" => AggK::Clo(self.sv(&k[1])),
                    _ => AggK::Other,
                };
                let os = a[2].as_array().unwrap().iter().map(|x| self.opnd(x)).collect();
                Rv::Agg(kk, os)
            }
            "setd" => Rv::SetD(a[1].as_u64().unwrap() as u32),
            "dead" => Rv::Dead,
            _ => Rv::Other,
        }
    }
    pub fn load(&mut self, path: &str) {
        let txt = std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let v: Value = serde_json::from_slice(&txt).unwrap();
        let krate = self.sv(&v["crate"]);
        for b in v["bodies"].as_array().unwrap() {
            let locals = b["locals"]
                .as_array()
                .unwrap()
                .iter()
                .map(|l| {
                    let a = l.as_array().unwrap();
                    (self.sv(&a[0]), a.get(1).map(|x| x.as_str().unwrap().into()))
                })
                .collect();
            let mut blocks = vec![];
            for bl in b["blocks"].as_array().unwrap() {
                if bl.is_null() {
                    blocks.push(None);
                    continue;
                }
                let mut s = vec![];
                for st in bl["s"].as_array().unwrap() {
                    let a = st.as_array().unwrap();
                    let pl = self.place(&a[1]);
                    let mut rv = self.rvalue(&a[2]);
                    // a pointer into a box read from some place points into
                    // what that place holds, not into the copy of the box
                    if let Rv::Cast(_, Opnd::Copy(p), to, _) = &mut rv {
                        if to.starts_with('*') && p.p.iter().all(|x| matches!(x, P::F(..))) && !p.p.is_empty() {
                            let src = s.iter().rev().find(|q: &&Stmt| q.pl.l == p.l && q.pl.p.is_empty());
                            if let Some(Rv::Use(Opnd::Copy(o))) = src.map(|q| &q.rv) {
                                let mut n = o.clone();
                                n.p.append(&mut p.p);
                                *p = n;
                            }
                        }
                    }
                    s.push(Stmt {
                        ln: a[0].as_u64().unwrap() as u32,
                        pl,
                        rv,
                        mac: a.get(3).and_then(|m| m.as_str()).map(|m| m.into()),
                    });
                }
                let t = &bl["t"];
                let to = t["to"].as_u64().map(|x| x as u32);
                let tt = match t["k"].as_str().unwrap() {
                    "goto" => Term::Goto(to.unwrap()),
                    "switch" => Term::Switch(
                        self.opnd(&t["op"]),
                        t["ts"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| {
                                let n: i128 = x[0].to_string().parse().unwrap_or(-1);
                                // the compiler writes negative values as their bits
                                let w = match t["dty"].as_str().unwrap_or("") {
                                    "i8" => 8,
                                    "i16" => 16,
                                    "i32" => 32,
                                    "i64" | "isize" => 64,
                                    _ => 0,
                                };
                                let n = if w > 0 && n >= 1 << (w - 1) { n - (1 << w) } else { n };
                                (n, x[1].as_u64().unwrap() as u32)
                            })
                            .collect(),
                        t["else"].as_u64().unwrap() as u32,
                        self.sv(&t["dty"]),
                    ),
                    "ret" => Term::Ret,
                    "unreachable" => Term::Unreachable,
                    "drop" => Term::Drop(self.place(&t["p"]), to.unwrap()),
                    "call" => {
                        let f = self.opnd(&t["f"]);
                        let a = t["a"].as_array().unwrap().iter().map(|x| self.opnd(x)).collect();
                        Term::Call(f, a, self.place(&t["d"]), to)
                    }
                    "assert" => {
                        let m = t["msg"].as_array().unwrap();
                        let msg = match m[0].as_str().unwrap() {
                            "bounds" => Msg::Bounds(self.opnd(&m[1]), self.opnd(&m[2])),
                            "overflow" => {
                                Msg::Overflow(self.sv(&m[1]), self.opnd(&m[2]), self.opnd(&m[3]), self.sv(&m[4]))
                            }
                            "neg" => Msg::Neg(self.opnd(&m[1])),
                            "div0" | "rem0" => Msg::Div0(self.opnd(&m[1])),
                            _ => Msg::Other,
                        };
                        Term::Assert(self.opnd(&t["c"]), truth(&t["e"]), msg, to.unwrap())
                    }
                    _ => Term::Other,
                };
                blocks.push(Some(Block {
                    s,
                    t: tt,
                    ln: t["ln"].as_u64().unwrap_or(0) as u32,
                    mac: t["mac"].as_str().map(|m| m.into()),
                }));
            }
            let mut body = Body {
                id: self.sv(&b["id"]),
                name: self.sv(&b["name"]),
                file: self.sv(&b["file"]),
                line: b["line"].as_u64().unwrap() as u32,
                argc: b["argc"].as_u64().unwrap() as usize,
                locals,
                blocks,
                krate: krate.clone(),
                intrait: b.get("intrait").is_some(),
                reach: truth(&b["reach"]),
                mac: b["mac"].as_str().map(|m| m.into()),
                itrait: b["itrait"].as_str().map(|m| m.into()),
                rpo: vec![],
                heads: vec![],
                live: vec![],
                keyloc: vec![],
                addr: vec![],
            };
            analyse(&mut body);
            self.byid.insert(body.id.clone(), self.bodies.len());
            self.bodies.push(body);
        }
        for a in v["adts"].as_array().unwrap() {
            let name = self.sv(&a["name"]);
            let is_enum = truth(&a["enum"]);
            let mut vars = vec![];
            for (i, x) in a["variants"].as_array().unwrap().iter().enumerate() {
                let vn = self.sv(&x["name"]);
                let fields = x["fields"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|f| (self.sv(&f[0]), self.sv(&f[1])))
                    .collect();
                let cn = if is_enum { format!("{name}::{vn}") } else { name.to_string() };
                let cn = self.s(&cn);
                self.ctors.insert(cn, (name.clone(), i as u32));
                vars.push(Variant {
                    name: vn,
                    discr: x["discr"].to_string().parse().unwrap_or(i as i128),
                    fields,
                });
            }
            self.adts.insert(name.clone(), Adt { name, is_enum, vars });
        }
        for i in v["impls"].as_array().unwrap() {
            let tr = i["trait"].as_str().map(|s| s.to_string()).map(|s| self.s(&s));
            let m: HashMap<String, Rc<str>> = i["m"]
                .as_object()
                .unwrap()
                .iter()
                .map(|(k, v)| (k.clone(), self.sv(v)))
                .collect();
            let derived = truth(&i["derived"]);
            if derived {
                if let Some(t) = &tr {
                    for id in m.values() {
                        self.derived.insert(id.clone(), t.clone());
                    }
                }
            }
            let selfty = self.sv(&i["self"]);
            self.impls.push(Impl { selfty, tr, m, derived });
        }
    }
    pub fn std_adts(&mut self) {
        for (n, vs) in [
            ("core::option::Option", vec![("None", 0), ("Some", 1)]),
            ("core::result::Result", vec![("Ok", 1), ("Err", 1)]),
            ("core::ops::control_flow::ControlFlow", vec![("Continue", 1), ("Break", 1)]),
        ] {
            let name = self.s(n);
            let mut vars = vec![];
            for (i, (v, k)) in vs.iter().enumerate() {
                let vn = self.s(v);
                let cn = self.s(&format!("{n}::{v}"));
                self.ctors.insert(cn, (name.clone(), i as u32));
                let f = (0..*k).map(|_| (self.s("0"), self.s("T"))).collect();
                vars.push(Variant { name: vn, discr: i as i128, fields: f });
            }
            self.adts.insert(name.clone(), Adt { name, is_enum: true, vars });
        }
        let name = self.s("core::cmp::Ordering");
        let mut vars = vec![];
        for (i, v) in ["Less", "Equal", "Greater"].iter().enumerate() {
            let vn = self.s(v);
            vars.push(Variant { name: vn, discr: i as i128 - 1, fields: vec![] });
        }
        self.adts.insert(name.clone(), Adt { name, is_enum: true, vars });
    }
}

fn truth(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| v.as_u64().map(|x| x != 0).unwrap_or(false))
}

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(x) | Term::Drop(_, x) | Term::Assert(_, _, _, x) => vec![*x],
        Term::Switch(_, ts, e, _) => {
            let mut v: Vec<u32> = ts.iter().map(|x| x.1).collect();
            v.push(*e);
            v
        }
        Term::Call(_, _, _, Some(x)) => vec![*x],
        _ => vec![],
    }
}

/// Branches that only decide what is dropped are no branches: the targets meet
/// again without having done anything.
fn simplify(b: &mut Body) {
    let nl = b.locals.len();
    let mut cand: Vec<bool> = (0..nl).map(|i| i > b.argc && &*b.locals[i].0 == "bool" && b.locals[i].1.is_none()).collect();
    let use_op = |o: &Opnd, cand: &mut Vec<bool>| {
        if let Opnd::Copy(p) | Opnd::Move(p) = o {
            cand[p.l as usize] = false;
        }
    };
    for bl in b.blocks.iter().flatten() {
        for s in &bl.s {
            match &s.rv {
                Rv::Ref(p, _) | Rv::Raw(p) | Rv::Discr(p, _) => cand[p.l as usize] = false,
                _ => {}
            }
            if !matches!(s.rv, Rv::Dead) && !(s.pl.p.is_empty() && matches!(s.rv, Rv::Use(Opnd::K(Cst::Int(..))))) {
                cand[s.pl.l as usize] = false;
            }
            for_ops(&s.rv, &mut |o| use_op(o, &mut cand));
        }
        match &bl.t {
            Term::Call(f, a, d, _) => {
                use_op(f, &mut cand);
                a.iter().for_each(|o| use_op(o, &mut cand));
                cand[d.l as usize] = false;
            }
            Term::Assert(o, _, _, _) => use_op(o, &mut cand),
            _ => {}
        }
    }
    let mut flags = vec![false; nl];
    for _ in 0..3 {
        let mut ok = cand.clone();
        for bl in b.blocks.iter().flatten() {
            if let Term::Switch(Opnd::Copy(p) | Opnd::Move(p), ts, e, _) = &bl.t {
                if p.p.is_empty() && ok[p.l as usize] {
                    let js: Vec<Option<u32>> = ts.iter().map(|x| x.1).chain([*e]).map(|t| meet(b, t, &flags, 0)).collect();
                    if js.iter().any(|j| j.is_none() || *j != js[0]) {
                        ok[p.l as usize] = false;
                    }
                }
            }
        }
        if ok == flags {
            break;
        }
        flags = ok;
    }
    let mut to: Vec<(usize, u32)> = vec![];
    for (i, bl) in b.blocks.iter().enumerate() {
        let Some(bl) = bl else { continue };
        if let Term::Switch(_, ts, e, _) = &bl.t {
            let js: Vec<Option<u32>> = ts.iter().map(|x| x.1).chain([*e]).filter(|t| !matches!(&b.blocks[*t as usize], Some(Block { t: Term::Unreachable, s, .. }) if s.is_empty())).map(|t| meet(b, t, &flags, 0)).collect();
            if js.len() > 1 && js[0].is_some() && js.iter().all(|j| *j == js[0]) {
                to.push((i, js[0].unwrap()));
            }
        }
    }
    for (i, j) in to {
        b.blocks[i].as_mut().unwrap().t = Term::Goto(j);
    }
    for bl in b.blocks.iter_mut().flatten() {
        bl.s.retain(|s| !(s.pl.p.is_empty() && flags[s.pl.l as usize]));
    }
}
/// the first block from here on that does something
fn meet(b: &Body, mut x: u32, flags: &[bool], d: u32) -> Option<u32> {
    for _ in 0..40 {
        let k = b.blocks[x as usize].as_ref()?;
        let idle = k.s.iter().all(|s| {
            matches!(s.rv, Rv::Dead) || s.pl.p.is_empty() && (flags[s.pl.l as usize] || matches!(s.rv, Rv::Discr(..)) && b.locals[s.pl.l as usize].1.is_none())
        });
        if !idle {
            return Some(x);
        }
        match &k.t {
            Term::Goto(y) | Term::Drop(_, y) => x = *y,
            Term::Switch(_, ts, e, _) if d < 4 => {
                let js: Vec<Option<u32>> = ts
                    .iter()
                    .map(|t| t.1)
                    .chain([*e])
                    .filter(|t| !matches!(&b.blocks[*t as usize], Some(Block { t: Term::Unreachable, s, .. }) if s.is_empty()))
                    .map(|t| meet(b, t, flags, d + 1))
                    .collect();
                if js.is_empty() || js[0].is_none() || js.iter().any(|j| *j != js[0]) {
                    return Some(x);
                }
                x = js[0]?;
            }
            _ => return Some(x),
        }
    }
    None
}

fn analyse(b: &mut Body) {
    simplify(b);
    let n = b.blocks.len();
    // RPO and loop heads
    let mut state = vec![0u8; n];
    let mut post = vec![];
    let mut heads = vec![false; n];
    let mut stack: Vec<(u32, usize)> = vec![(0, 0)];
    if n == 0 {
        return;
    }
    state[0] = 1;
    while let Some((x, i)) = stack.pop() {
        let ss = b.blocks[x as usize].as_ref().map(|k| succs(&k.t)).unwrap_or_default();
        if i < ss.len() {
            stack.push((x, i + 1));
            let y = ss[i];
            match state[y as usize] {
                0 => {
                    state[y as usize] = 1;
                    stack.push((y, 0));
                }
                1 => heads[y as usize] = true,
                _ => {}
            }
        } else {
            state[x as usize] = 2;
            post.push(x);
        }
    }
    let mut rpo = vec![u32::MAX; n];
    for (i, x) in post.iter().rev().enumerate() {
        rpo[*x as usize] = i as u32;
    }
    // Blocks of a loop must come before the blocks after it: order by
    // (loop nest) is approximated by a second pass that places exits last.
    b.rpo = loop_order(b, &rpo, &heads);
    b.heads = heads;
    // address taken, key locals
    let nl = b.locals.len();
    let mut addr = vec![false; nl];
    let mut only_const = vec![true; nl];
    let mut flag_switch = vec![false; nl];
    let mut other_use = vec![false; nl];
    for bl in b.blocks.iter().flatten() {
        for s in &bl.s {
            match &s.rv {
                Rv::Ref(p, true) | Rv::Raw(p) => addr[p.l as usize] = true,
                Rv::Cast(_, Opnd::Copy(p), _, _) if !p.p.is_empty() => addr[p.l as usize] = true,
                _ => {}
            }
            if !matches!(s.rv, Rv::Dead) && s.pl.p.is_empty() {
                match &s.rv {
                    Rv::Use(Opnd::K(Cst::Int(..))) => {}
                    _ => only_const[s.pl.l as usize] = false,
                }
            }
            for_ops(&s.rv, &mut |o| {
                if let Opnd::Copy(p) | Opnd::Move(p) = o {
                    other_use[p.l as usize] = true;
                }
            });
        }
        match &bl.t {
            Term::Switch(Opnd::Copy(p) | Opnd::Move(p), ts, e, _) if p.p.is_empty() => {
                let mut drops = false;
                for t in ts.iter().map(|x| x.1).chain([*e]) {
                    if let Some(k) = &b.blocks[t as usize] {
                        if k.s.is_empty() && matches!(k.t, Term::Drop(..)) {
                            drops = true;
                        }
                    }
                }
                if drops {
                    flag_switch[p.l as usize] = true;
                } else {
                    other_use[p.l as usize] = true;
                }
            }
            Term::Call(_, a, d, _) => {
                if d.p.is_empty() {
                    only_const[d.l as usize] = false;
                }
                for o in a {
                    if let Opnd::Copy(p) | Opnd::Move(p) = o {
                        other_use[p.l as usize] = true;
                    }
                }
            }
            _ => {}
        }
    }
    let mut key = vec![0u8; nl];
    for i in 0..nl {
        let ty = &b.locals[i].0;
        if &**ty == "bool" {
            let dropflag = b.locals[i].1.is_none() && only_const[i] && flag_switch[i] && !other_use[i];
            if !dropflag {
                key[i] = 2;
            }
        } else {
            key[i] = 1;
        }
    }
    b.keyloc = key;
    // liveness (address-taken locals are live throughout)
    let mut gen = vec![vec![false; nl]; n];
    let mut kill = vec![vec![false; nl]; n];
    for (i, bl) in b.blocks.iter().enumerate() {
        let Some(bl) = bl else { continue };
        let g = &mut gen[i];
        let k = &mut kill[i];
        // forward scan: first access decides
        let mut seen_def = vec![false; nl];
        let mut usep = |p: &Place, seen_def: &Vec<bool>, g: &mut Vec<bool>| {
            if !seen_def[p.l as usize] {
                g[p.l as usize] = true;
            }
            for x in &p.p {
                if let P::I(l) = x {
                    if !seen_def[*l as usize] {
                        g[*l as usize] = true;
                    }
                }
            }
        };
        for s in &bl.s {
            if matches!(s.rv, Rv::Dead) {
                seen_def[s.pl.l as usize] = true;
                k[s.pl.l as usize] = true;
                continue;
            }
            for_ops(&s.rv, &mut |o| {
                if let Opnd::Copy(p) | Opnd::Move(p) = o {
                    usep(p, &seen_def, g);
                }
            });
            match &s.rv {
                Rv::Ref(p, _) | Rv::Raw(p) | Rv::Discr(p, _) => usep(p, &seen_def, g),
                _ => {}
            }
            if s.pl.p.is_empty() {
                seen_def[s.pl.l as usize] = true;
                k[s.pl.l as usize] = true;
            } else {
                usep(&s.pl, &seen_def, g);
            }
        }
        let mut opu = |o: &Opnd, g: &mut Vec<bool>| {
            if let Opnd::Copy(p) | Opnd::Move(p) = o {
                usep(p, &seen_def, g);
            }
        };
        match &bl.t {
            Term::Switch(o, ..) => opu(o, g),
            Term::Assert(o, ..) => opu(o, g),
            Term::Call(f, a, d, _) => {
                opu(f, g);
                for o in a {
                    opu(o, g);
                }
                if d.p.is_empty() {
                    if !g[d.l as usize] {
                        k[d.l as usize] = true;
                    }
                } else {
                    usep(d, &seen_def, g);
                }
            }
            Term::Ret => {
                if !seen_def[0] {
                    g[0] = true;
                }
            }
            _ => {}
        }
    }
    let mut live = gen.clone();
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            let Some(bl) = &b.blocks[i] else { continue };
            for s in succs(&bl.t) {
                for l in 0..nl {
                    if live[s as usize][l] && !kill[i][l] && !live[i][l] {
                        live[i][l] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    for v in live.iter_mut() {
        for l in 0..nl {
            if addr[l] {
                v[l] = true;
            }
        }
    }
    b.live = live;
    b.addr = addr;
}

pub fn for_ops(r: &Rv, f: &mut dyn FnMut(&Opnd)) {
    match r {
        Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _, _) | Rv::Un(_, o) => f(o),
        Rv::Bin(_, a, b, _) => {
            f(a);
            f(b)
        }
        Rv::Agg(_, v) => v.iter().for_each(|o| f(o)),
        _ => {}
    }
}

/// Weak topological order: within a loop all blocks get numbers below the
/// blocks reached after the loop.
fn loop_order(b: &Body, rpo: &[u32], heads: &[bool]) -> Vec<u32> {
    let n = rpo.len();
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, bl) in b.blocks.iter().enumerate() {
        if rpo[i] == u32::MAX {
            continue;
        }
        if let Some(bl) = bl {
            for s in succs(&bl.t) {
                preds[s as usize].push(i as u32);
            }
        }
    }
    // natural loop of each head
    let mut loops: Vec<(u32, Vec<bool>)> = vec![];
    for h in 0..n {
        if !heads[h] {
            continue;
        }
        let mut inl = vec![false; n];
        inl[h] = true;
        let mut st: Vec<u32> = preds[h].iter().copied().filter(|p| rpo[*p as usize] >= rpo[h]).collect();
        while let Some(x) = st.pop() {
            if inl[x as usize] || rpo[x as usize] == u32::MAX {
                continue;
            }
            inl[x as usize] = true;
            for p in &preds[x as usize] {
                if !inl[*p as usize] && rpo[*p as usize] >= rpo[h] {
                    st.push(*p);
                }
            }
        }
        loops.push((h as u32, inl));
    }
    // key per block: nested path of loop heads' rpo; order blocks so that loop members are contiguous
    fn place(blocks: &mut Vec<u32>, rpo: &[u32], loops: &[(u32, Vec<bool>)], inside: Option<usize>, out: &mut Vec<u32>, skip: &mut Vec<bool>) {
        blocks.sort_by_key(|x| rpo[*x as usize]);
        let bs = blocks.clone();
        for x in bs {
            if skip[x as usize] {
                continue;
            }
            // is x a head of a loop (other than `inside`)?
            let li = loops.iter().position(|(h, _)| *h == x);
            match li {
                Some(li) if Some(li) != inside => {
                    let mut mem: Vec<u32> = (0..rpo.len() as u32)
                        .filter(|y| loops[li].1[*y as usize] && !skip[*y as usize] && blocks.contains(y))
                        .collect();
                    place(&mut mem, rpo, loops, Some(li), out, skip);
                }
                _ => {
                    skip[x as usize] = true;
                    out.push(x);
                }
            }
        }
    }
    let mut all: Vec<u32> = (0..n as u32).filter(|x| rpo[*x as usize] != u32::MAX).collect();
    let mut out = vec![];
    let mut skip = vec![false; n];
    place(&mut all, rpo, &loops, None, &mut out, &mut skip);
    let mut r = vec![u32::MAX; n];
    for (i, x) in out.iter().enumerate() {
        r[*x as usize] = i as u32;
    }
    r
}
