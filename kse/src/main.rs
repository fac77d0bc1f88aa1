//! kse: symbolic execution of rustc-emitted LLVM IR with z3 as the decision procedure.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::time::Instant;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut params = vec![];
    let mut limit = 600.0;
    let mut maxv = 1;
    let mut seed = 1;
    let mut profile = false;
    let mut mem = 6000;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--ll" => ll = a[i + 1].clone(),
            "--entry" => entry = a[i + 1].clone(),
            "--params" => params = a[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--limit" => limit = a[i + 1].parse().unwrap(),
            "--max-viol" => maxv = a[i + 1].parse().unwrap(),
            "--seed" => seed = a[i + 1].parse().unwrap(),
            "--mem" => mem = a[i + 1].parse().unwrap(),
            "--profile" => {
                profile = true;
                i += 1;
                continue;
            }
            x => panic!("arg {}", x),
        }
        i += 2;
    }
    // deep recursion in the expression code wants a big stack
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = Instant::now();
            let md = ir::Module::load(&ll);
            let load = t0.elapsed().as_secs_f64();
            let mut ex = exec::Exec::new(md, params, seed, limit);
            ex.max_viol = maxv;
            ex.max_mem_mb = mem;
            if profile {
                ex.profile = Some(Default::default());
            }
            ex.run(&entry);
            let mut o = String::new();
            o += "{";
            o += &format!("\"entry\":{},", js(&entry));
            o += &format!("\"z3\":{},", js(&solver::Solv::version()));
            o += &format!("\"paths\":{},\"infeasible\":{},\"forks\":{},\"insts\":{},\"checks\":{},", ex.paths, ex.dead, ex.forks, ex.insts, ex.checks);
            o += &format!(
                "\"queries\":{},\"tabled\":{},\"table_only\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"slow\":{},\"solver_s\":{:.3},\"max_query_ms\":{},",
                ex.sv.queries, ex.sv.tabled, ex.sv.table_only, ex.sv.cached, ex.sv.sat, ex.sv.unsat, ex.sv.unknown, ex.sv.slow, ex.sv.time, ex.sv.max_ms
            );
            o += &format!("\"sym_bytes\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"rss_mb\":{},", ex.max_sym, load, t0.elapsed().as_secs_f64(), exec::rss_mb());
            o += &format!(
                "\"incomplete\":{},",
                match &ex.incomplete {
                    Some(s) => js(s),
                    None => "null".into(),
                }
            );
            o += &format!(
                "\"violations\":[{}],",
                ex.viols
                    .iter()
                    .map(|v| format!("{{\"kind\":{},\"code\":{},\"bytes\":{},\"at\":{}}}", js(&v.kind), v.code, js(&hex(&v.bytes)), js(&v.at)))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            o += &format!(
                "\"covers\":{{{}}},",
                ex.covers.iter().map(|(k, (n, b))| format!("\"{}\":[{},{}]", k, n, js(&hex(b)))).collect::<Vec<_>>().join(",")
            );
            o += &format!(
                "\"samples\":[{}],",
                ex.samples
                    .iter()
                    .map(|s| format!(
                        "{{\"bytes\":{},\"obs\":[{}],\"covers\":[{}]}}",
                        js(&hex(&s.bytes)),
                        s.obs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","),
                        s.covers.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                    ))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            let fns: Vec<String> = ex.funcs.iter().map(|&id| ex.md.fns[id as usize].name.to_string()).collect();
            o += &format!("\"functions\":[{}]", fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            o += "}";
            println!("{}", o);
            if let Some(p) = &ex.profile {
                let mut v: Vec<_> = p.iter().collect();
                v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for ((f, b), n) in v.into_iter().take(25) {
                    eprintln!("{:8} {} #{}", n, exec::short(&ex.md.fns[*f as usize].name), b);
                }
            }
        })
        .unwrap();
    h.join().unwrap();
}
