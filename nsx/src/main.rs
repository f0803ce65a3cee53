mod exec;
mod expr;
mod ir;
mod replay;
mod solver;
mod z3;
use std::fmt::Write;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "replay") {
        return replay::main(&a[2..]);
    }
    let mut ll = String::new();
    let mut f = String::new();
    let mut out = String::new();
    let mut o = exec::Opts { case: 0, max_steps: 20_000_000, time: 600.0, seed: 1, samples: 6, max_viol: 12, grace: 5.0, split: None };
    let mut qt = 60000u32;
    let mut smtlog = None;
    let mut audit = 2000u64;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--fn" => f = v,
            "--out" => out = v,
            "--case" => o.case = v.parse().unwrap(),
            "--max-steps" => o.max_steps = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--query-timeout" => qt = v.parse().unwrap(),
            "--smtlog" => smtlog = Some(v),
            "--audit" => audit = v.parse().unwrap(),
            "--grace" => o.grace = v.parse().unwrap(),
            "--split" => {
                let (x, y) = v.split_once('/').unwrap();
                o.split = Some((x.parse().unwrap(), y.parse().unwrap()));
            }
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let load = t0.elapsed().as_secs_f64();
    let mut s = solver::Solver::new(qt);
    s.z3.logdir = smtlog;
    s.audit_every = audit;
    let mut e = exec::Eng::new(m, s, o);
    e.run(&f);
    let mut r = String::new();
    let st = &e.s.st;
    let _ = write!(
        r,
        "{{\"fn\":{},\"case\":{},\"complete\":{},\"incomplete_reason\":{},\"paths\":{},\"paths_assumed_away\":{},\"forks\":{},\"instructions\":{},\"max_path_steps\":{},\"expr_nodes\":{},\"load_s\":{:.2},\"wall_s\":{:.2}",
        js(&f),
        e.o.case,
        e.incomplete.is_none() && e.viols.is_empty(),
        match &e.incomplete {
            Some(s) => js(s),
            None => "null".into(),
        },
        e.paths,
        e.paths_assumed_away,
        e.forks,
        e.instrs,
        e.max_path_steps,
        e.s.x.nodes.len(),
        load,
        t0.elapsed().as_secs_f64()
    );
    let _ = write!(
        r,
        ",\"solver\":{{\"z3\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_time_s\":{:.3},\"cache_hits\":{},\"byte_domain_decided\":{},\"interval_decided\":{},\"model_guess_decided\":{},\"audited_with_z3\":{},\"rewrites\":{},\"rewrites_proved_by_z3\":{},\"integer_arithmetic_queries\":{}}}",
        js(&z3::version()),
        st.z3_queries,
        st.z3_sat,
        st.z3_unsat,
        st.z3_unknown,
        st.z3_time,
        st.cache_hits,
        st.domain_decided,
        st.range_decided,
        st.guess_decided,
        st.audits,
        st.rewrites,
        st.rewrites_audited,
        e.s.z3.int_decided
    );
    let _ = write!(r, ",\"asserts\":{{{}}}", e.asserts_total.iter().map(|(k, v)| format!("\"{}\":[{},{},{}]", k, v[0], v[1], v[2])).collect::<Vec<_>>().join(","));
    let _ = write!(r, ",\"covers\":{{{}}}", e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        r,
        ",\"violations\":[{}],\"violation_paths\":{}",
        e.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"bytes\":\"{}\"}}", js(&v.kind), js(&v.msg), js(&v.loc), hex(&v.bytes))).collect::<Vec<_>>().join(","),
        e.viol_total
    );
    let _ = write!(
        r,
        ",\"samples\":[{}]",
        e.samples.iter().map(|s| format!("{{\"bytes\":\"{}\",\"obs\":[{}]}}", hex(&s.bytes), s.obs.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
    );
    let uf = e.used_funcs();
    let _ = write!(r, ",\"functions\":[{}]}}", uf.iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect::<Vec<_>>().join(","));
    if std::env::var("NSX_PROF").is_ok() {
        let mut v: Vec<_> = e.fprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:8} forks in {} bb{}", n, e.m.fns[k.0 as usize].name, k.1);
        }
    }
    if out.is_empty() {
        println!("{}", r);
    } else {
        std::fs::write(&out, r).expect("write result");
    }
    0
}
fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(4);
    std::process::exit(r);
}
