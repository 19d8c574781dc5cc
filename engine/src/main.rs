mod exec;
mod gate;
mod load;
mod native;
mod show;
mod state;
mod summary;
mod term;
use exec::*;
use load::*;

fn load_all(dir: &str) -> Prog {
    let mut p = Prog::default();
    p.std_adts();
    let mut fs: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    fs.sort();
    for f in fs {
        if f.extension().map(|e| e == "json").unwrap_or(false) {
            p.load(f.to_str().unwrap());
        }
    }
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = load_all(&a[2]);
    match a[1].as_str() {
        "run" => {
            // run FACTS ENTRIES.json REFS.json|- OUT.json
            let entries: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
            let refs: serde_json::Value = if a[4] == "-" {
                serde_json::json!({})
            } else {
                serde_json::from_str(&std::fs::read_to_string(&a[4]).unwrap()).unwrap()
            };
            let out = summary::run(&p, &entries, &refs);
            std::fs::write(&a[5], serde_json::to_string(&out).unwrap()).unwrap();
        }
        "all" => {
            // all FACTS CRATE OUT: every function of a crate, for exploration
            let names: Vec<serde_json::Value> = p
                .bodies
                .iter()
                .filter(|b| !b.name.contains("{closure") && canon_crate(&b.name) == a[3])
                .map(|b| serde_json::json!({"id": &*b.name, "fn": &*b.name}))
                .collect();
            let out = summary::run(&p, &serde_json::Value::Array(names), &serde_json::json!({}));
            std::fs::write(&a[4], serde_json::to_string(&out).unwrap()).unwrap();
        }
        "list" => {
            // list FACTS: every function, one JSON line each
            use std::io::Write;
            let o = std::io::stdout();
            let mut o = std::io::BufWriter::new(o.lock());
            for b in &p.bodies {
                let _ = writeln!(
                    o,
                    "{}",
                    serde_json::json!({"name": &*b.name, "id": &*b.id, "nb": b.blocks.iter().filter(|x| x.is_some()).count(), "canon": canon_name(&b.name), "crate": &*b.krate, "file": &*b.file, "line": b.line,
                        "reach": b.reach, "mac": b.mac.as_deref(), "trait": b.itrait.as_deref(), "derived": p.derived.contains_key(&b.id), "argc": b.argc,
                        "ret": &*b.locals[0].0, "args": b.locals[1..=b.argc].iter().map(|l| l.0.to_string()).collect::<Vec<_>>()})
                );
            }
        }
        "names" => {
            for b in &p.bodies {
                if canon_name(&b.name).contains(a[3].as_str()) {
                    println!("{}  [{}]", canon_name(&b.name), b.name);
                }
            }
        }
        "dump" => {
            let pat = &a[3];
            let mut cfg = Cfg::default();
            for x in &a[4..] {
                if x == "+all" {
                    cfg.partition_all = true;
                } else {
                    cfg.opaque.push(x.clone());
                }
            }
            for (i, b) in p.bodies.iter().enumerate() {
                if !b.name.ends_with(pat.as_str()) {
                    continue;
                }
                println!("=== {} ({}:{})", b.name, b.file, b.line);
                let mut e = Eng::new(&p, cfg.clone());
                e.enter(i, None);
                e.run();
                if e.aborted {
                    println!("ABORTED nodes={}", e.nodes.len());
                }
                let sites = e.sites.clone();
                for s in &sites {
                    if !s.ok {
                        println!("  UNPROVEN {} {} at {}:{} [{}]", s.kind, s.what, p.bodies[s.body].file, s.ln, p.bodies[s.body].name);
                    }
                }
                println!("  sites {} ok {}", sites.len(), sites.iter().filter(|s| s.ok).count());
                let ex: Vec<_> = e.exits.iter().map(|x| (x.ret, x.st.clone())).collect();
                for (r, st) in ex {
                    println!("  EXIT {}", e.show(r));
                    for (t, c) in st.eqc.iter() {
                        println!("      {} == {}", e.show(*t), c);
                    }
                    for (t, c) in st.ne.iter() {
                        println!("      {} != {}", e.show(*t), c);
                    }
                    for l in st.lin.iter() {
                        let t = e.tab.from_lin(l);
                        println!("      {} <= 0", e.show(t));
                    }
                }
                let oc = e.opaque_calls.clone();
                for (n, c) in oc {
                    println!("  opaque {n} x{c}");
                }
            }
        }
        _ => panic!("?"),
    }
}

fn canon_crate(n: &str) -> String {
    n.trim_start_matches('<').split("::").next().unwrap_or("").to_string()
}
