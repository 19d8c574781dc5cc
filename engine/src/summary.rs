//! What an entry point decides: conditions crossed on the way to each kind of
//! outcome, returned values, effects, panic sites.
use crate::exec::*;
use crate::load::*;
use crate::term::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use crate::state::St;
type Atom = (T, i128, bool);

fn nidx_get(names: &[String], nterm: &[BTreeSet<Atom>], x: &str) -> Option<BTreeSet<Atom>> {
    names.iter().position(|n| n == x).map(|i| nterm[i].clone())
}
fn strs_of(r: &Value) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    if let Some(m) = r["must"].as_object() {
        for ks in m.values() {
            for v in ks.as_object().unwrap().values() {
                for x in v.as_array().unwrap() {
                    o.insert(x.as_str().unwrap().to_string());
                }
            }
        }
    }
    o
}

impl<'p> Eng<'p> {
    fn class_of(&mut self, st: &crate::state::St, v: T, d: usize) -> String {
        let v = self.deref_val(st, v);
        match self.tab.k(v).clone() {
            K::Agg(n, i, a) => {
                let n = self.tab.str(n).to_string();
                match n.as_str() {
                    "core::result::Result" | "core::option::Option" => {
                        let vn = match (n.ends_with("Option"), i) {
                            (true, 0) => return "None".into(),
                            (true, _) => "Some",
                            (false, 0) => "Ok",
                            _ => return "Err".into(),
                        };
                        if d == 0 || a.is_empty() {
                            return vn.into();
                        }
                        let x = self.class_of(st, a[0], d - 1);
                        if matches!(x.as_str(), "None" | "Some" | "true" | "false" | "Ok" | "Err") {
                            format!("{vn}({x})")
                        } else {
                            vn.into()
                        }
                    }
                    _ if n.ends_with("::CostContext") && !a.is_empty() => self.class_of(st, a[0], d),
                    _ => {
                        let p = self.p;
                        match p.adts.get(n.as_str()) {
                            Some(x) if x.is_enum => x.vars.get(i as usize).map(|v| v.name.to_string()).unwrap_or("val".into()),
                            _ => "val".into(),
                        }
                    }
                }
            }
            _ => {
                let b = self.is_cond(v) || self.tab.tyname(v) == "bool" || matches!(self.tab.k(v), K::Int(0 | 1)) && d < 2;
                if b {
                    match self.truth(st, v) {
                        Some(true) => "true".into(),
                        Some(false) => "false".into(),
                        None => "val".into(),
                    }
                } else {
                    "val".into()
                }
            }
        }
    }

    /// split an exit so that the kind of outcome is decided
    fn exit_cases(&mut self, st: &St, v: T, ty: &str, d: usize, log: Vec<Atom>) -> Vec<(Vec<Atom>, St, T)> {
        let v = self.deref_val(st, v);
        let base = ty.split('<').next().unwrap_or("").to_string();
        let kind = match self.tab.k(v).clone() {
            K::Agg(n, ..) => self.tab.str(n).to_string(),
            _ => base.clone(),
        };
        let done = |st: &St| vec![(log.clone(), st.clone(), v)];
        if kind == "bool" || self.is_cond(v) || self.tab.tyname(v) == "bool" {
            if self.truth(st, v).is_some() {
                return done(st);
            }
            let mut out = vec![];
            for want in [true, false] {
                let mut s = st.clone();
                s.log = Default::default();
                if self.assume(&mut s, v, want) {
                    let mut l = log.clone();
                    l.extend(s.log.iter().copied());
                    out.push((l, s, v));
                }
            }
            return out;
        }
        let v = if base.ends_with("::CostContext") && !matches!(self.tab.k(v), K::Agg(..)) && d > 0 {
            let f0 = self.tab.field(v, -1, 0);
            if let (true, Some(inner)) = (self.tab.tyname(f0).is_empty(), ty.split_once('<').and_then(|x| x.1.strip_suffix('>'))) {
                self.tab.set_ty(f0, inner);
            }
            let f1 = self.tab.field(v, -1, 1);
            self.tab.agg(&base, 0, &[f0, f1])
        } else {
            v
        };
        if let K::Agg(n, i, a) = self.tab.k(v).clone() {
            let nm = self.tab.str(n).to_string();
            let pay = matches!((nm.as_str(), i), ("core::result::Result", 0) | ("core::option::Option", 1)) || nm.ends_with("::CostContext");
            if !pay || a.is_empty() || d == 0 {
                return done(st);
            }
            let mut out = vec![];
            for (l, s, x) in self.exit_cases(st, a[0], "", d - 1, log.clone()) {
                let mut b = a.to_vec();
                b[0] = x;
                let t = self.tab.mk(K::Agg(n, i, b.into()));
                out.push((l, s, t));
            }
            return out;
        }
        let adt = match self.tab.tyname(v) {
            "" => base,
            t => t.split('<').next().unwrap_or("").to_string(),
        };
        if adt == "core::result::Result" || adt == "core::option::Option" {
            let mut out = vec![];
            let good = if adt.ends_with("Option") { 1 } else { 0 };
            for want in [good, 1 - good] {
                let mut s0 = st.clone();
                s0.log = Default::default();
                let Some(s) = self.split(&s0, v, &adt, want) else { continue };
                let mut l = log.clone();
                l.extend(s.log.iter().copied());
                let t = if want == 0 && good == 1 {
                    self.tab.agg(&adt, 0, &[])
                } else {
                    let f = self.tab.field(v, want as i32, 0);
                    self.tab.agg(&adt, want, &[f])
                };
                if want == good && d > 0 {
                    out.extend(self.exit_cases(&s, t, "", d, l));
                } else {
                    out.push((l, s, t));
                }
            }
            return out;
        }
        done(st)
    }
    /// leaves of a value, by field path, with the merge edges they came through
    fn flat(&mut self, st: &St, v: T, path: String, via: &mut Vec<(N, u32, N)>, d: usize, out: &mut Vec<(String, T, Option<String>, Vec<(N, u32, N)>)>) {
        if out.len() > 400 {
            return;
        }
        let v = self.deref_val(st, v);
        match self.tab.k(v).clone() {
            K::Agg(n, i, a) if d > 0 => {
                let nm = self.tab.str(n).to_string();
                if nm != "vec" && a.len() < 24 {
                    let p = self.p;
                    let en = p.adts.get(nm.as_str()).filter(|x| x.is_enum);
                    let mut pre = path.clone();
                    if let Some(ad) = en {
                        let vn = ad.vars.get(i as usize).map(|x| x.name.to_string()).unwrap_or_default();
                        out.push((path.clone(), v, Some(vn.clone()), via.clone()));
                        pre = format!("{path}.{vn}");
                    }
                    for (j, x) in a.iter().enumerate() {
                        let f = p
                            .adts
                            .get(nm.as_str())
                            .and_then(|ad| ad.vars.get(if ad.is_enum { i as usize } else { 0 }))
                            .and_then(|vv| vv.fields.get(j).map(|f| f.0.to_string()))
                            .unwrap_or_else(|| j.to_string());
                        if nm.ends_with("::Result") && i == 1 && d >= 9 {
                            continue;
                        }
                        self.flat(st, *x, format!("{pre}.{f}"), via, d - 1, out);
                    }
                    return;
                }
            }
            K::Phi(n, _) if d > 0 => {
                let (c, leaves) = self.cluster(v);
                let looped = leaves.iter().any(|l| self.tab.phis[*l as usize].iter().any(|p| c.contains(p)));
                if !looped && !leaves.contains(&v) {
                    if let Some(m) = self.nodes[n as usize].pmap.get(&v).cloned() {
                        if via.len() < 12 {
                            for ((f, o), x) in m {
                                if c.contains(&x) && via.iter().any(|e| e.2 == n) {
                                    continue;
                                }
                                via.push((f, o, n));
                                self.flat(st, x, path.clone(), via, d - 1, out);
                                via.pop();
                            }
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        out.push((path, v, None, via.clone()));
    }

    pub fn summary(&mut self, rf: Option<&Value>) -> Value {
        let p = self.p;
        // ---- sites
        let mut sites = vec![];
        let mut nsites: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        for s in &self.sites {
            let e = nsites.entry(s.kind.clone()).or_insert((0, 0));
            e.0 += 1;
            if s.ok {
                e.1 += 1;
            } else {
                sites.push(json!({"kind": s.kind, "what": s.what, "fn": canon_name(&p.bodies[s.body].name), "file": &*p.bodies[s.body].file, "line": s.ln}));
            }
        }
        // ---- graph, with a virtual node per decided exit
        struct E {
            from: N,
            to: N,
            oi: u32,
            names: Vec<u32>,
            atoms: Vec<Atom>,
            body: usize,
            ln: u32,
            st: std::rc::Rc<St>,
        }
        let mut names: Vec<String> = vec![];
        let mut nidx: HashMap<String, u32> = HashMap::new();
        let mut nterm: Vec<BTreeSet<Atom>> = vec![];
        let mut nat: Vec<(usize, u32)> = vec![];
        let mut edges: Vec<E> = vec![];
        let mut total = self.nodes.len();
        let raw: Vec<(N, N, u32, Vec<Atom>, usize, u32, std::rc::Rc<St>)> =
            self.edges.iter().map(|e| (e.from, e.to, e.oi, e.atoms.clone(), e.body, e.ln, e.st.clone())).collect();
        let mut all = raw;
        let mut cls: BTreeMap<String, BTreeSet<N>> = BTreeMap::new();
        let mut outcomes: Vec<(N, N, String, std::rc::Rc<St>, T)> = vec![]; // virtual node, node, class
        let ex: Vec<(N, std::rc::Rc<St>, T)> = self.exits.iter().map(|e| (e.node, e.st.clone(), e.ret)).collect();
        let b0 = self.frames[0].body;
        let rty = p.bodies[b0].locals[0].0.to_string();
        for (nd, st, r) in ex {
            for (log, s, r2) in self.exit_cases(&st, r, &rty, 2, vec![]) {
                let c = if rty == "bool" {
                    match self.truth(&s, r2) {
                        Some(true) => "true".to_string(),
                        Some(false) => "false".to_string(),
                        None => "val".into(),
                    }
                } else {
                    self.class_of(&s, r2, 2)
                };
                let vn = total as u32;
                total += 1;
                let s = std::rc::Rc::new(s);
                all.push((nd, vn, 0, log, b0, p.bodies[b0].line, s.clone()));
                cls.entry(c.clone()).or_default().insert(vn);
                outcomes.push((vn, nd, c, s, r2));
            }
        }
        let n = total;
        let mut intern = |s: String, b: usize, ln: u32, names: &mut Vec<String>, nterm: &mut Vec<BTreeSet<Atom>>, nat: &mut Vec<(usize, u32)>| -> u32 {
            if let Some(i) = nidx.get(&s) {
                return *i;
            }
            let i = names.len() as u32;
            nidx.insert(s.clone(), i);
            names.push(s);
            nterm.push(Default::default());
            nat.push((b, ln));
            i
        };
        let mut shown: Vec<T> = vec![];
        for (from, to, oi, at, body, ln, st) in all {
            let mut set: BTreeSet<u32> = BTreeSet::new();
            for a in at.iter().copied() {
                if self.always(a) {
                    continue;
                }
                let s = self.show_atom(a.0, a.1, a.2);
                let i = intern(s, body, ln, &mut names, &mut nterm, &mut nat);
                nterm[i as usize].insert(a);
                shown.push(a.0);
                set.insert(i);
            }
            edges.push(E { from, to, oi, names: set.into_iter().collect(), atoms: at, body, ln, st });
        }
        let natoms = names.len();
        let mut byfrom: HashMap<N, Vec<usize>> = HashMap::new();
        for (i, e) in edges.iter().enumerate() {
            byfrom.entry(e.from).or_default().push(i);
        }
        // ---- effectful calls take part as conditions
        let evs: Vec<(N, String, Vec<T>, u32)> = self
            .events
            .iter()
            .filter(|e| {
                if self.cfg.auto {
                    e.eff
                } else {
                    e.eff || self.cfg.track.iter().any(|t| e.name.contains(t.as_str())) && !self.cfg.quiet.iter().any(|t| e.name.contains(t.as_str()))
                }
            })
            .map(|e| (e.node, e.name.to_string(), e.args.clone(), e.ln))
            .collect();
        let mut calls: BTreeMap<u32, Vec<N>> = BTreeMap::new();
        for (nd, name, args, ln) in evs {
            let a: Vec<String> = args.iter().map(|x| self.show(*x)).collect();
            shown.extend(args.iter().copied());
            let s = format!("call {}({})", name, a.join(", "));
            let b = self.frames[self.nodes[nd as usize].frame as usize].body;
            let i = intern(s, b, ln, &mut names, &mut nterm, &mut nat);
            calls.entry(i).or_default().push(nd);
            for e in byfrom.get(&nd).cloned().unwrap_or_default() {
                if !edges[e].names.contains(&i) {
                    edges[e].names.push(i);
                }
            }
        }
        let m = names.len();
        let w = m / 64 + 1;
        let mut inn: Vec<Vec<usize>> = vec![vec![]; n];
        let mut out: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, e) in edges.iter().enumerate() {
            inn[e.to as usize].push(i);
            out[e.from as usize].push(i);
        }
        // order
        let mut order: Vec<N> = (0..self.nodes.len() as u32).filter(|x| self.nodes[*x as usize].cur.is_some()).collect();
        order.sort_by_cached_key(|x| self.prio(*x));
        order.extend(self.nodes.len() as u32..n as u32);
        let edges = &edges;
        let set_names = |s: &mut Vec<u64>, e: usize| {
            for i in &edges[e].names {
                s[*i as usize / 64] |= 1 << (i % 64);
            }
        };
        // conditions crossed on every path to a node / from a node to the targets
        let flow = |start: &BTreeSet<N>, fwdp: bool| -> Vec<Option<Vec<u64>>> {
            let mut v: Vec<Option<Vec<u64>>> = vec![None; n];
            for s in start {
                v[*s as usize] = Some(vec![0; w]);
            }
            loop {
                let mut ch = false;
                for k in 0..order.len() {
                    let x = if fwdp { order[k] } else { order[order.len() - 1 - k] };
                    if start.contains(&x) {
                        continue;
                    }
                    let es = if fwdp { &inn[x as usize] } else { &out[x as usize] };
                    let mut acc: Option<Vec<u64>> = None;
                    for e in es {
                        let y = if fwdp { edges[*e].from } else { edges[*e].to };
                        let Some(s) = &v[y as usize] else { continue };
                        let mut s = s.clone();
                        set_names(&mut s, *e);
                        match &mut acc {
                            None => acc = Some(s),
                            Some(a) => {
                                for (p, q) in a.iter_mut().zip(s.iter()) {
                                    *p &= *q;
                                }
                            }
                        }
                    }
                    if acc.is_some() && acc != v[x as usize] {
                        // monotone from above once set
                        if let (Some(o), Some(a)) = (&v[x as usize], &mut acc) {
                            for (p, q) in a.iter_mut().zip(o.iter()) {
                                *p &= *q;
                            }
                            if a == o {
                                continue;
                            }
                        }
                        v[x as usize] = acc;
                        ch = true;
                    }
                }
                if !ch {
                    return v;
                }
            }
        };
        let start: BTreeSet<N> = [0].into();
        let fwd = flow(&start, true);
        let zero = vec![0u64; w];
        let list = |s: &Vec<u64>| -> Vec<u32> { (0..m as u32).filter(|i| s[*i as usize / 64] >> (i % 64) & 1 == 1).collect() };
        let at_edge = |e: usize| -> Option<Vec<u64>> {
            let mut s = fwd[edges[e].from as usize].clone()?;
            set_names(&mut s, e);
            Some(s)
        };
        let find_edge = |f: N, o: u32, t: N| -> Option<usize> { out[f as usize].iter().copied().find(|e| edges[*e].oi == o && edges[*e].to == t) };
        let bad = |k: &str| k == "Err" || k.starts_with("Ok(Err") || k == "None" || k == "false";
        let mut by_name: Vec<Vec<usize>> = vec![vec![]; m];
        for (i, e) in edges.iter().enumerate() {
            for x in &e.names {
                by_name[*x as usize].push(i);
            }
        }
        // ---- what every way to an outcome decides; and every way through S
        let mut base: BTreeMap<String, Vec<u64>> = BTreeMap::new();
        let mut must: BTreeMap<String, BTreeMap<String, BTreeSet<String>>> = BTreeMap::new();
        let mut back: BTreeMap<String, Vec<Option<Vec<u64>>>> = BTreeMap::new();
        for (k, t) in &cls {
            let bw = flow(t, false);
            if !bad(k) || cls.len() <= 2 && rty == "bool" || k == "None" {
                let b = bw[0].clone().unwrap_or(zero.clone());
                must.entry("".into()).or_default().insert(k.clone(), list(&b).into_iter().map(|i| names[i as usize].clone()).collect());
                for s in 0..natoms {
                    if b[s / 64] >> (s % 64) & 1 == 1 {
                        continue;
                    }
                    let mut acc: Option<Vec<u64>> = None;
                    for e in &by_name[s] {
                        let Some(q) = &bw[edges[*e].to as usize] else { continue };
                        let Some(mut f) = at_edge(*e) else { continue };
                        for (x, y) in f.iter_mut().zip(q.iter()) {
                            *x |= *y;
                        }
                        match &mut acc {
                            None => acc = Some(f),
                            Some(a) => {
                                for (p, q) in a.iter_mut().zip(f.iter()) {
                                    *p &= *q;
                                }
                            }
                        }
                    }
                    if let Some(mut a) = acc {
                        for (x, y) in a.iter_mut().zip(b.iter()) {
                            *x &= !*y;
                        }
                        a[s / 64] &= !(1 << (s % 64));
                        must.entry(names[s].clone()).or_default().insert(k.clone(), list(&a).into_iter().map(|i| names[i as usize].clone()).collect());
                    }
                }
                base.insert(k.clone(), b);
            }
            back.insert(k.clone(), bw);
        }
        // ---- a pair counts only if S decides it: when the outcome can also be reached
        // with X failing and S not looked at, looking at S earlier changes nothing
        if rf.is_none() {
            let comp: Vec<BTreeSet<u32>> = (0..natoms)
                .map(|i| {
                    let mut o = BTreeSet::new();
                    for (t, c, eq) in nterm[i].clone() {
                        if let Some(j) = nidx.get(&self.show_atom(t, c, !eq)) {
                            o.insert(*j);
                        }
                        if eq {
                            for j in 0..natoms {
                                if j != i && nterm[j].iter().any(|(t2, c2, e2)| *t2 == t && *e2 && *c2 != c) {
                                    o.insert(j as u32);
                                }
                            }
                        }
                    }
                    o.remove(&(i as u32));
                    o
                })
                .collect();
            for s in 0..natoms {
                let Some(ks) = must.get_mut(&names[s]) else { continue };
                let mut cut: HashSet<usize> = by_name[s].iter().copied().collect();
                for j in &comp[s] {
                    cut.extend(by_name[*j as usize].iter().copied());
                }
                let reach = |st: Vec<N>, fw: bool| -> Vec<bool> {
                    let mut seen = vec![false; n];
                    let mut st = st;
                    for x in &st {
                        seen[*x as usize] = true;
                    }
                    while let Some(x) = st.pop() {
                        for e in if fw { &out[x as usize] } else { &inn[x as usize] } {
                            let y = if fw { edges[*e].to } else { edges[*e].from };
                            if !cut.contains(e) && !seen[y as usize] {
                                seen[y as usize] = true;
                                st.push(y);
                            }
                        }
                    }
                    seen
                };
                let fw = reach(vec![0], true);
                for (k, xs) in ks.iter_mut() {
                    let bw = reach(cls[k].iter().copied().collect(), false);
                    xs.retain(|x| {
                        let Some(xi) = nidx.get(x) else { return true };
                        if *xi as usize >= natoms {
                            return true;
                        }
                        !comp[*xi as usize]
                            .iter()
                            .any(|j| by_name[*j as usize].iter().any(|e| !cut.contains(e) && fw[edges[*e].from as usize] && bw[edges[*e].to as usize]))
                    });
                }
            }
        }
        // ---- loops: conditions every element meets before the outcome
        // a loop is known by the index it advances and the bound that ends it
        let mut loops: BTreeMap<(u32, u32, String), (Vec<usize>, Vec<usize>)> = BTreeMap::new();
        for i in 0..edges.len() {
            {
                for (t, c, eq) in edges[i].atoms.clone() {
                    let Some(("le0", a)) = self.tab.opname(t).map(|(n, a)| (n, a.to_vec())) else { continue };
                    let pos = (c != 0) == eq;
                    let mut l = self.tab.raw_lin(a[0]);
                    if !pos {
                        let Some(m) = l.scale(-1) else { continue };
                        l = m;
                        l.k += 1;
                    }
                    // exit: bound - i <= 0 ; enter: i - bound + 1 <= 0
                    let ph: Vec<(T, i128)> = l.v.iter().filter(|x| matches!(self.tab.k(x.0), K::Phi(..)) && x.1.abs() == 1).copied().collect();
                    for (phi, sg) in ph {
                        let s = self.show(phi);
                        if !s.starts_with('*') {
                            continue;
                        }
                        let K::Phi(h, _) = self.tab.k(phi).clone() else { continue };
                        let (hf, hb) = (self.nodes[h as usize].frame, self.nodes[h as usize].block);
                        // the exit form is the group's name
                        let mut ex = l.clone();
                        if sg > 0 {
                            let Some(m) = ex.scale(-1) else { continue };
                            ex = m;
                            ex.k += 1;
                        }
                        let name = self.show_cmp_pub(&ex);
                        let e = loops.entry((hf, hb, name)).or_default();
                        if sg > 0 {
                            e.0.push(i);
                        } else {
                            e.1.push(i);
                        }
                    }
                }
            }
        }
        for ((hf, hb, name), (enter, exit)) in &loops {
            if enter.is_empty() || exit.is_empty() {
                continue;
            }
            if std::env::var("SA_LOOPS").is_ok() {
                eprintln!("loop f{hf} b{hb} {name} enter {} exit {}", enter.len(), exit.len());
            }
            let exi: HashSet<usize> = exit.iter().copied().collect();
            let heads: BTreeSet<N> = (0..self.nodes.len() as u32)
                .filter(|x| self.nodes[*x as usize].frame == *hf && self.nodes[*x as usize].block == *hb)
                .collect();
            for (k, t) in &cls {
                if !base.contains_key(k) {
                    continue;
                }
                if !enter.iter().any(|i| back[k][edges[*i].to as usize].is_some()) {
                    continue;
                }
                // must the loop run to its end?
                let mut seen = vec![false; n];
                let mut st = vec![0u32];
                seen[0] = true;
                while let Some(x) = st.pop() {
                    for e in &out[x as usize] {
                        if !exi.contains(e) && !seen[edges[*e].to as usize] {
                            seen[edges[*e].to as usize] = true;
                            st.push(edges[*e].to);
                        }
                    }
                }
                if t.iter().any(|x| seen[*x as usize]) {
                    continue;
                }
                let mut tgt = heads.clone();
                tgt.extend(t.iter());
                let bw = flow(&tgt, false);
                let mut acc: Option<Vec<u64>> = None;
                for e in enter {
                    let Some(q) = &bw[edges[*e].to as usize] else { continue };
                    let mut a = q.clone();
                    set_names(&mut a, *e);
                    match &mut acc {
                        None => acc = Some(a),
                        Some(o) => {
                            for (p, q) in o.iter_mut().zip(a.iter()) {
                                *p &= *q;
                            }
                        }
                    }
                }
                if let Some(a) = acc {
                    let ent: HashSet<u32> = enter.iter().flat_map(|e| edges[*e].names.iter().copied()).collect();
                    for x in list(&a) {
                        if !ent.contains(&x) {
                            must.entry("".into()).or_default().entry(k.clone()).or_default().insert(format!("each [{name}]: {}", names[x as usize]));
                        }
                    }
                }
            }
        }
        must.retain(|s, ks| {
            ks.retain(|_, v| s.is_empty() || !v.is_empty());
            !ks.is_empty()
        });
        // ---- outcome values, by field, with the conditions that select them
        let mut vals: BTreeMap<(String, String), BTreeMap<String, Option<Vec<u64>>>> = BTreeMap::new();
        let mut errs: BTreeSet<String> = BTreeSet::new();
        let meet = |slot: &mut Option<Vec<u64>>, s: &Vec<u64>| match slot {
            None => *slot = Some(s.clone()),
            Some(a) => {
                for (p, q) in a.iter_mut().zip(s.iter()) {
                    *p &= *q;
                }
            }
        };
        for (vn, nd, k, st, r) in &outcomes {
            let Some(f0) = fwd[*vn as usize].clone() else { continue };
            let mut leaves = vec![];
            self.flat(st, *r, "ret".into(), &mut vec![], 9, &mut leaves);
            for (i, root) in self.entry_roots.clone().into_iter().enumerate() {
                let Some(root) = root else { continue };
                if let Some(v) = st.vals.get(&root).copied() {
                    let v = self.resolve(st, v, 6);
                    self.flat(st, v, format!("p{i}"), &mut vec![], 8, &mut leaves);
                }
            }
            for (t, root) in self.cells.clone() {
                if let Some(v) = st.vals.get(&root).copied() {
                    let v = self.resolve(st, v, 6);
                    let n = self.show(t);
                    self.flat(st, v, n, &mut vec![], 8, &mut leaves);
                }
            }
            let _ = nd;
            for (path, v, tag, via) in leaves {
                if bad(k) && (path.starts_with("ret.") && k != "false") {
                    if path == "ret.Err.0" {
                        if let Some(t) = &tag {
                            errs.insert(t.clone());
                        }
                    }
                    continue;
                }
                if self.cfg.nocost && (path.contains(".cost") || path.contains("cost.")) {
                    continue;
                }
                let s = match tag {
                    Some(t) => t,
                    None => {
                        shown.push(v);
                        self.show(v)
                    }
                };
                let mut g = f0.clone();
                for (f, o, t) in via {
                    if let Some(e) = find_edge(f, o, t) {
                        if let Some(x) = at_edge(e) {
                            for (p, q) in g.iter_mut().zip(x.iter()) {
                                *p |= *q;
                            }
                        }
                    }
                }
                meet(vals.entry((k.clone(), path)).or_default().entry(s).or_insert(None), &g);
            }
        }
        // ---- merged values inside what is shown
        let mut phis: BTreeMap<String, BTreeMap<String, (Vec<u64>, Vec<u64>)>> = BTreeMap::new();
        let mut seen: HashSet<T> = HashSet::new();
        let mut wl: Vec<T> = shown.clone();
        let mut todo: Vec<T> = vec![];
        while let Some(t) = wl.pop() {
            let ps: Vec<T> = match self.tab.k(t) {
                K::Phi(..) => vec![t],
                _ => self.tab.phis[t as usize].iter().copied().collect(),
            };
            for q in ps {
                if !seen.insert(q) {
                    continue;
                }
                todo.push(q);
                let K::Phi(h, _) = self.tab.k(q) else { continue };
                if let Some(mm) = self.nodes[*h as usize].pmap.get(&q) {
                    wl.extend(mm.values().copied());
                }
            }
        }
        let mut in_cluster: HashSet<T> = HashSet::new();
        for q in todo {
            if in_cluster.contains(&q) {
                continue;
            }
            let (c, _) = self.cluster(q);
            in_cluster.extend(c.iter().copied());
            let pname = self.show(q);
            for x in c.iter() {
                let K::Phi(h, _) = self.tab.k(*x).clone() else { continue };
                let Some(mm) = self.nodes[h as usize].pmap.get(x).cloned() else { continue };
                let Some(fh) = fwd[h as usize].clone() else { continue };
                for ((f, o), v) in mm {
                    if c.contains(&v) {
                        continue;
                    }
                    let Some(e) = find_edge(f, o, h) else { continue };
                    let Some(g) = at_edge(e) else { continue };
                    let l = self.show_in(v, &c);
                    let en = phis.entry(pname.clone()).or_default();
                    match en.get_mut(&l) {
                        None => {
                            en.insert(l, (g, fh.clone()));
                        }
                        Some((a, b)) => {
                            for (p, q) in a.iter_mut().zip(g.iter()) {
                                *p &= *q;
                            }
                            for (p, q) in b.iter_mut().zip(fh.iter()) {
                                *p |= *q;
                            }
                        }
                    }
                }
            }
        }
        // ---- edges that commit to a failing outcome
        let refx: BTreeSet<String> = rf
            .map(|r| strs_of(r))
            .unwrap_or_default();
        let refc: BTreeSet<String> = rf
            .and_then(|r| r["commits"].as_array())
            .map(|m| m.iter().map(|x| x[0].as_str().or(x.as_str()).unwrap_or("").to_string()).collect())
            .unwrap_or_default();
        let mut commits: BTreeMap<String, (String, String, u32, bool)> = BTreeMap::new();
        let goodk: Vec<String> = cls.keys().filter(|k| !bad(k)).cloned().collect();
        if !goodk.is_empty() {
            for (i, e) in edges.iter().enumerate() {
                let good = |x: N| goodk.iter().any(|k| back[k][x as usize].is_some());
                if fwd[e.from as usize].is_none() || !good(e.from) || good(e.to) {
                    continue;
                }
                let mut conds: Vec<String> = e.names.iter().filter(|x| (**x as usize) < natoms).map(|x| names[*x as usize].clone()).collect();
                conds.sort();
                let name = if conds.is_empty() { "(unconditional)".to_string() } else { conds.join(" && ") };
                let mut just = refc.contains(&name) || conds.iter().any(|c| refc.contains(c));
                if rf.is_some() && !just {
                    let st = edges[i].st.clone();
                    for x in &refx {
                        if just {
                            break;
                        }
                        let Some(a) = nidx_get(&names, &nterm, x) else { continue };
                        for (t, c, eq) in a {
                            if self.holds(&st, t, c, eq) == Some(false) {
                                just = true;
                                break;
                            }
                        }
                    }
                }
                let en = commits.entry(name).or_insert((canon_name(&p.bodies[e.body].name), p.bodies[e.body].file.to_string(), e.ln, true));
                en.3 &= just;
            }
        }
        // ---- reference requirements the graph does not show but the state does
        let mut entailed: Vec<(String, String, String)> = vec![];
        if let Some(mr) = rf.and_then(|r| r["must"].as_object()) {
            for (s, ks) in mr {
                for (k, xs) in ks.as_object().unwrap() {
                    for x in xs.as_array().unwrap() {
                        let x = x.as_str().unwrap();
                        let have = |q: &str| must.get(q).and_then(|y| y.get(k)).map(|y| y.contains(x)).unwrap_or(false);
                        if have(s) || have("") {
                            continue;
                        }
                        let Some(xa) = nidx_get(&names, &nterm, x) else { continue };
                        if s.is_empty() {
                            let mut all = true;
                            let mut any = false;
                            for (_, _, k2, st, _) in &outcomes {
                                if k2 == k {
                                    any = true;
                                    all &= xa.iter().any(|(t, c, eq)| self.holds(st, *t, *c, *eq) == Some(true));
                                }
                            }
                            if any && all {
                                entailed.push((s.clone(), k.clone(), x.to_string()));
                            }
                            continue;
                        }
                        let Some(si) = names.iter().position(|q| q == s) else { continue };
                        let Some(bw) = back.get(k) else { continue };
                        let xi = names.iter().position(|q| q == x).unwrap();
                        let mut all = true;
                        for e in &by_name[si] {
                            let Some(q) = &bw[edges[*e].to as usize] else { continue };
                            let Some(f) = at_edge(*e) else { continue };
                            if (q[xi / 64] | f[xi / 64]) >> (xi % 64) & 1 == 1 {
                                continue;
                            }
                            let st = edges[*e].st.clone();
                            if !xa.iter().any(|(t, c, eq)| self.holds(&st, *t, *c, *eq) == Some(true)) {
                                all = false;
                                break;
                            }
                        }
                        if all {
                            entailed.push((s.clone(), k.clone(), x.to_string()));
                        }
                    }
                }
            }
        }
        for (s, k, x) in entailed {
            must.entry(s).or_default().entry(k).or_default().insert(x);
        }
        let mut atoms = Map::new();
        for i in 0..natoms {
            atoms.insert(names[i].clone(), json!([canon_name(&p.bodies[nat[i].0].name), &*p.bodies[nat[i].0].file, nat[i].1]));
        }
        let strs = |s: &Vec<u64>| -> Vec<&str> { list(s).into_iter().map(|i| names[i as usize].as_str()).collect() };
        let minus = |a: &Vec<u64>, b: &Vec<u64>| -> Vec<u64> { a.iter().zip(b.iter()).map(|(x, y)| x & !y).collect() };
        // d: the conditions that tell it apart; f: all conditions known
        let mut jv = Map::new();
        for ((k, path), ls) in &vals {
            let b = base.get(k).unwrap_or(&zero);
            let mut o = Map::new();
            for (l, g) in ls {
                let g = g.clone().unwrap();
                o.insert(l.clone(), json!({"d": strs(&minus(&g, b)), "f": strs(&g)}));
            }
            jv.insert(format!("{k} {path}"), Value::Object(o));
        }
        let mut jp = Map::new();
        for (pn, ls) in &phis {
            let mut o = Map::new();
            for (l, (g, fh)) in ls {
                o.insert(l.clone(), json!({"d": strs(&minus(g, fh)), "f": strs(g)}));
            }
            jp.insert(pn.clone(), Value::Object(o));
        }
        let mut jc = Map::new();
        for (c, nds) in &calls {
            let mut slot = None;
            for nd in nds {
                if let Some(f) = &fwd[*nd as usize] {
                    meet(&mut slot, f);
                }
            }
            if let Some(g) = slot {
                jc.insert(names[*c as usize].clone(), json!({"f": strs(&g), "at": [canon_name(&p.bodies[nat[*c as usize].0].name), &*p.bodies[nat[*c as usize].0].file, nat[*c as usize].1]}));
            }
        }
        json!({
            "fn": canon_name(&p.bodies[b0].name),
            "file": &*p.bodies[b0].file,
            "line": p.bodies[b0].line,
            "aborted": self.aborted,
            "nodes": self.nodes.len(),
            "inlined": self.inlined.iter().map(|b| canon_name(&p.bodies[*b].name)).filter(|x| !x.starts_with("sa_models")).collect::<BTreeSet<_>>(),
            "opaque": self.opaque_calls,
            "nsites": nsites.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<Map<_, _>>(),
            "sites": sites,
            "classes": cls.iter().map(|(k, v)| (k.clone(), json!(v.len()))).collect::<Map<_, _>>(),
            "errs": errs,
            "vals": jv,
            "phis": jp,
            "atoms": atoms,
            "must": must,
            "calls": jc,
            "commits": commits.iter().map(|(k, v)| json!([k, v.0, v.1, v.2, v.3])).collect::<Vec<_>>(),
        })
    }
    /// is the condition true wherever it stands (by lower bounds of loop-carried
    /// numbers and collections)?
    pub fn always(&mut self, a: Atom) -> bool {
        let (t, c, eq) = a;
        let Some((n, x)) = self.tab.opname(t) else { return false };
        let pos = (c != 0) == eq;
        if n == "eq0" {
            if pos {
                return false;
            }
            let y = x[0];
            let l = self.tab.raw_lin(y);
            if l.v.len() != 1 || l.v[0].1.abs() != 1 {
                return false;
            }
            let at = -l.k * l.v[0].1;
            let y = l.v[0].0;
            return self.low(y, &mut vec![], 8).is_some_and(|lo| lo != i128::MAX && lo > at);
        }
        if n != "le0" {
            return n == "not" && {
                let y = x[0];
                self.always((y, 0, pos))
            };
        }
        let y = x[0];
        let mut l = self.tab.raw_lin(y);
        if !pos {
            let Some(m) = l.scale(-1) else { return false };
            l = m;
            l.k += 1;
        }
        let mut up = l.k;
        for (x, c) in l.v.clone() {
            if c >= 0 {
                return false;
            }
            let Some(lo) = self.low(x, &mut vec![], 8) else { return false };
            if lo == i128::MAX {
                return false;
            }
            up += c * lo;
        }
        up <= 0
    }
    /// a lower bound; MAX stands for "no further constraint" inside a cycle
    fn low(&mut self, t: T, o: &mut Vec<BTreeSet<T>>, d: usize) -> Option<i128> {
        if d == 0 {
            return None;
        }
        if o.iter().any(|c| c.contains(&t)) {
            return Some(i128::MAX);
        }
        match self.tab.k(t).clone() {
            K::Int(i) => Some(i),
            K::Len(x) => Some(self.lowlen(x, o, d - 1)),
            K::Phi(..) => {
                let (c, ls) = self.cluster(t);
                o.push(c);
                let mut m = i128::MAX;
                for l in ls {
                    match self.low(l, o, d - 1) {
                        Some(x) => m = m.min(x),
                        None => {
                            o.pop();
                            return None;
                        }
                    }
                }
                o.pop();
                if m < 0 {
                    None
                } else {
                    Some(m)
                }
            }
            _ => {
                let l = self.tab.raw_lin(t);
                if l.v.len() == 1 && l.v[0].0 == t {
                    return int_range(self.tab.tyname(t)).map(|r| r.0);
                }
                let mut s = l.k;
                for (x, c) in l.v.clone() {
                    if c < 0 {
                        return None;
                    }
                    let lo = self.low(x, o, d - 1)?;
                    if lo == i128::MAX {
                        return if l.k >= 0 { Some(i128::MAX) } else { None };
                    }
                    s += c * lo;
                }
                Some(s)
            }
        }
    }
    fn lowlen(&mut self, t: T, o: &mut Vec<BTreeSet<T>>, d: usize) -> i128 {
        if d == 0 {
            return 0;
        }
        if o.iter().any(|c| c.contains(&t)) {
            return i128::MAX;
        }
        match self.tab.k(t).clone() {
            K::Agg(n, 0, a) if self.tab.str(n) == "vec" => a.len() as i128,
            K::Upd(b, Pr::Ix(_), _) => self.lowlen(b, o, d - 1),
            K::Phi(..) => {
                let (c, ls) = self.cluster(t);
                o.push(c);
                let m = ls.into_iter().map(|l| self.lowlen(l, o, d - 1)).min().unwrap_or(0);
                o.pop();
                m
            }
            _ => match self.tab.opname(t) {
                Some(("push", a)) => {
                    let x = a[0];
                    let m = self.lowlen(x, o, d - 1);
                    if m == i128::MAX {
                        m
                    } else {
                        m + 1
                    }
                }
                Some(("reverse" | "sort" | "sort_by_key", a)) => {
                    let x = a[0];
                    self.lowlen(x, o, d - 1)
                }
                _ => 0,
            },
        }
    }
    fn holds(&mut self, st: &crate::state::St, t: T, c: i128, eq: bool) -> Option<bool> {
        if self.is_cond(t) || self.tab.tyname(t) == "bool" {
            return self.truth(st, t).map(|b| (b == (c != 0)) == eq);
        }
        if let Some(v) = st.eqc.get(&t) {
            return Some((*v == c) == eq);
        }
        if st.ne.contains(&(t, c)) {
            return Some(!eq);
        }
        if let K::Discr(_) = self.tab.k(t) {
            return None;
        }
        let mut l = self.tab.lin(t);
        l.k -= c;
        let e = self.tab.eq0(&l);
        self.truth(st, e).map(|b| b == eq)
    }
}

pub fn find(p: &Prog, name: &str) -> Vec<usize> {
    let mut v = find0(p, name);
    v.sort_by_key(|b| std::cmp::Reverse(p.bodies[*b].blocks.len()));
    v
}
fn find0(p: &Prog, name: &str) -> Vec<usize> {
    let raw: Vec<usize> = (0..p.bodies.len()).filter(|i| &*p.bodies[*i].name == name).collect();
    if !raw.is_empty() {
        return raw;
    }
    let exact: Vec<usize> = (0..p.bodies.len()).filter(|i| canon_name(&p.bodies[*i].name) == name).collect();
    if !exact.is_empty() {
        return exact;
    }
    let suf = format!("::{name}");
    (0..p.bodies.len()).filter(|i| canon_name(&p.bodies[*i].name).ends_with(&suf)).collect()
}

pub fn run(p: &Prog, entries: &Value, refs: &Value) -> Value {
    let mut out = Map::new();
    let mut sets: HashMap<String, std::rc::Rc<HashSet<String>>> = HashMap::new();
    if let Some(m) = entries["bounds"].as_object() {
        for (k, v) in m {
            sets.insert(k.clone(), std::rc::Rc::new(v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()));
        }
    }
    let es = if entries.is_array() { entries } else { &entries["entries"] };
    for e in es.as_array().unwrap() {
        let id = e["id"].as_str().unwrap();
        let name = e["fn"].as_str().unwrap_or(id);
        let bs = find(p, name);
        if bs.is_empty() {
            out.insert(id.into(), json!({"missing": true}));
            continue;
        }
        let mut cfg = Cfg::default();
        let strs = |k: &str| -> Vec<String> {
            e[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
        };
        cfg.opaque.extend(strs("opaque"));
        cfg.track.extend(strs("track"));
        cfg.quiet.extend(strs("quiet"));
        cfg.nocost = !e["cost"].as_bool().unwrap_or(false);
        cfg.costonly = e["only"].as_str() == Some("cost");
        cfg.partition_all = e["all"].as_bool().unwrap_or(false);
        if let Some(m) = e["alias"].as_object() {
            cfg.alias = m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
        }
        cfg.auto = e["auto"].as_bool().unwrap_or(false);
        if let Some(b) = e["bounds"].as_str() {
            cfg.bounds = sets.get(b).cloned().unwrap_or_default();
            cfg.scope = format!("{b} {}", cfg.nocost);
        }
        if let Some(d) = e["secs"].as_u64() {
            cfg.secs = d;
        }
        if let Some(d) = e["nodes"].as_u64() {
            cfg.max_nodes = d as usize;
        }
        if let Some(d) = e["depth"].as_u64() {
            cfg.depth = d as usize;
        }
        let t = std::time::Instant::now();
        if std::env::var("SA_V").is_ok() {
            eprintln!("{id}");
        }
        let mut eng = Eng::new(p, cfg);
        eng.enter(bs[0], None);
        eng.run();
        let t1 = t.elapsed().as_millis() as u64;
        if eng.aborted {
            let b = &p.bodies[bs[0]];
            out.insert(
                id.into(),
                json!({"aborted": true, "fn": canon_name(&b.name), "file": &*b.file, "line": b.line, "nodes": eng.nodes.len(), "ms": t1}),
            );
            continue;
        }
        let cr = refs.get(id).map(|r| r["gate"]["c"].as_object().into_iter().flatten().map(|(d, g)| (d.clone(), g.clone())).collect()).unwrap_or_default();
        crate::gate::CLOREF.with(|c| *c.borrow_mut() = cr);
        let mut s = eng.summary(refs.get(id));
        if e["gate"].as_bool().unwrap_or(false) {
            let rg = refs.get(id).map(|r| r.get("gate").cloned().unwrap_or(Value::Null));
            if rg.as_ref().is_some_and(|g| g.is_null()) {
                s["gdiff"] = json!("none");
            } else {
                let (mut st, d) = eng.gated(rg.as_ref());
                if rg.is_none() && st.is_object() {
                    let t = st.to_string();
                    let big: Map<String, Value> = crate::gate::LARGE.with(|l| l.borrow().iter().filter(|(d, _)| t.contains(d.as_str())).map(|(d, g)| (d.clone(), g.clone())).collect());
                    if !big.is_empty() {
                        st["c"] = Value::Object(big);
                    }
                }
                s["gate"] = st;
                s["gdiff"] = d;
            }
        }
        s["ems"] = json!(t1);
        s["ms"] = json!(t.elapsed().as_millis() as u64);
        s["nbodies"] = json!(bs.len());
        out.insert(id.into(), s);
    }
    Value::Object(out)
}
