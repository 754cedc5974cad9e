mod exec;
mod ext;
mod field;
mod ir;
mod term;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: Iterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.collect::<Vec<_>>().join(","))
}

fn main() {
    let mut a = std::env::args().skip(1);
    let ll = a.next().expect("usage: rsym FILE.ll ENTRY [--case N] [--budget S] [--out F] [--dump P] [--trace] [--profile]");
    let entry = a.next().expect("entry");
    let (mut case, mut budget, mut out, mut dump, mut trace, mut profile, mut hard, mut samples) = (0u64, 0u64, None, None, false, false, 20_000u32, 6usize);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--case" => case = a.next().unwrap().parse().unwrap(),
            "--budget" => budget = a.next().unwrap().parse().unwrap(),
            "--out" => out = Some(a.next().unwrap()),
            "--dump" => dump = Some(a.next().unwrap()),
            "--hard-ms" => hard = a.next().unwrap().parse().unwrap(),
            "--samples" => samples = a.next().unwrap().parse().unwrap(),
            "--trace" => trace = true,
            "--profile" => profile = true,
            _ => panic!("unknown option {x}"),
        }
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let t0 = Instant::now();
        let md = ir::Module::load(std::fs::read(&ll).expect("read IR"));
        let mut ex = Exec {
            md: &md, ar: term::Arena::new(), z: z3::Z3::new(hard), work: vec![], hooks: ext::build(&md), case, labels: vec![],
            label_ix: Default::default(), reach_count: Default::default(), check_count: Default::default(), violations: Default::default(),
            inconclusive: Default::default(), samples: vec![], max_samples: samples,
            stats: Stats { paths: 0, done: 0, dropped: 0, events: 0, steps: 0, forks: 0, checks: 0, checks_concrete: 0, max_path_steps: 0 },
            deadline: if budget > 0 { Some(t0 + Duration::from_secs(budget)) } else { None }, gcache: Default::default(), trace,
            sites: Default::default(), profile, polys: Default::default(), units: Default::default(), proved: 0, var_names: Default::default(),
        };
        ex.z.dump = dump;
        let load_s = t0.elapsed().as_secs_f64();
        let st = ext::initial(&mut ex, &entry);
        ex.run_all(st);
        let reach: BTreeMap<String, u64> = ex.reach_count.iter().map(|(k, v)| (ex.labels[*k as usize].clone(), *v)).collect();
        let mut funcs: Vec<String> = md.compiled_names().iter().map(|n| ext::demangle(n)).collect();
        funcs.sort();
        funcs.dedup();
        let s = &ex.stats;
        let viol = arr(ex.violations.values().flatten().map(|v| {
            format!("{{\"label\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}", js(&v.label), js(&v.msg), arr(v.inputs.iter().map(|x| js(x))), arr(v.stack.iter().map(|x| js(x))))
        }));
        let samples = arr(ex.samples.iter().map(|p| {
            format!("{{\"inputs\":{},\"observed\":{},\"reached\":{}}}", arr(p.inputs.iter().map(|x| js(x))),
                arr(p.observed.iter().map(|(n, b)| format!("[{},{}]", js(n), js(b)))), arr(p.reached.iter().map(|x| js(x))))
        }));
        let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let txt = format!(
            "{{\"entry\":{},\"case\":{},\"paths\":{},\"done\":{},\"dropped\":{},\"events\":{},\"steps\":{},\"forks\":{},\"max_path_steps\":{},\"checks\":{},\"checks_concrete\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"total_s\":{:.3},\"load_s\":{:.3},\"terms\":{},\"solver\":{},\"reach\":{},\"check_labels\":{},\"inconclusive\":{},\"violations\":{},\"samples\":{},\"functions\":{}}}\n",
            js(&entry), case, s.paths, s.done, s.dropped, s.events, s.steps, s.forks, s.max_path_steps, s.checks, s.checks_concrete, ex.z.queries, ex.z.n_sat, ex.z.n_unsat,
            ex.z.unknowns, ex.z.cache_hits, ex.z.solver_s, ex.z.max_query_s, t0.elapsed().as_secs_f64(), load_s, ex.ar.nodes.len(), js(&z3::version()),
            map(&reach), map(&ex.check_count), map(&ex.inconclusive), viol, samples, arr(funcs.iter().map(|f| js(f)))
        );
        if profile {
            let mut v: Vec<_> = ex.sites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(40) { eprintln!("{n:7} {k}"); }
        }
        match out {
            Some(f) => std::fs::write(f, txt).unwrap(),
            None => {
                let cut = txt.find(",\"functions\"").unwrap();
                println!("{}}}", &txt[..cut]);
            }
        }
    }).unwrap();
    if h.join().is_err() { std::process::exit(3); }
}
