mod expr; mod ir; mod mem; mod solver; mod exec;
use std::time::{Duration, Instant};

/// readable form of a v0-mangled path (identifiers only)
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || true) {
            let mut j = i; let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if n > 0 && j + n <= b.len() && n < 200 && s.as_bytes()[j..j + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[j].is_ascii_digit() { out.push(s[j..j + n].to_string()); i = j + n; } else { i = j.max(i + 1); }
        } else if b[i] == b's' || b[i] == b'B' {
            // base-62 disambiguator / back reference, ends with '_'
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; } else { i += 1; }
        } else { i += 1; }
    }
    out.join("::")
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // symex <ir.ll> <harness> <out.json> [--max-steps N] [--timeout S] [--trace]
    let mut max_steps = 60_000_000u64; let mut timeout = 0u64; let mut trace = false;
    let mut i = 4;
    while i < a.len() { match a[i].as_str() { "--max-steps" => { max_steps = a[i + 1].parse().unwrap(); i += 1; } "--timeout" => { timeout = a[i + 1].parse().unwrap(); i += 1; } "--trace" => trace = true, x => panic!("arg {}", x) } i += 1; }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&a[1]).expect("ir file");
    let h = a[2].clone(); let out = a[3].clone();
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let m = ir::Module::load(src);
        let mut x = exec::Exec::new(m, solver::Solver::new(30_000), max_steps);
        x.trace = trace;
        if timeout > 0 { x.deadline = Some(t0 + Duration::from_secs(timeout)); }
        let r = x.start(&h).and_then(|_| x.run());
        let (status, what, vals, notes) = match &r {
            Ok(None) => ("ok", String::new(), vec![], vec![]),
            Ok(Some(f)) => (if f.kind == "hang" { "hang" } else { "violation" }, f.what.clone(), f.values.clone(), f.notes.clone()),
            Err(e) => ("error", e.clone(), vec![], vec![]),
        };
        let hx = |vals: &Vec<(u16, u128)>| -> Vec<String> { vals.iter().map(|(w, v)| { let mut s = String::new(); for i in 0..(*w / 8) { s += &format!("{:02x}", (v >> (8 * i)) & 255); } format!("\"{}\"", s) }).collect() };
        let hexes = hx(&vals);
        let sm: Vec<String> = x.samples.iter().map(|v| format!("[{}]", hx(v).join(", "))).collect();
        let s = &x.solver; let st = &x.stats;
        let fs: Vec<String> = x.functions().into_iter().map(|f| format!("\"{}\"", esc(&f))).collect();
        let rs: Vec<String> = x.reached.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
        let ns: Vec<String> = notes.iter().map(|n| format!("\"{}\"", esc(n))).collect();
        let j = format!("{{\n\"harness\": \"{}\",\n\"status\": \"{}\",\n\"what\": \"{}\",\n\"values\": [{}],\n\"notes\": [{}],\n\"samples\": [{}],\n\"expected_panics\": {},\n\"paths\": {}, \"assumed_away\": {}, \"forks\": {}, \"instructions\": {}, \"max_path_instructions\": {}, \"max_depth\": {}, \"max_inputs\": {},\n\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"solver_s\": {:.3}, \"slowest_s\": {:.3}, \"wall_s\": {:.3},\n\"reached\": {{{}}},\n\"functions\": [{}]\n}}\n",
            h, status, esc(&what), hexes.join(", "), ns.join(", "), sm.join(",\n"), x.panics, st.paths, st.assumed, st.forks, st.steps, st.max_path_steps, st.max_depth, st.max_inputs, s.queries, s.sat, s.unsat, s.unknown, s.cached, s.time, s.slowest, t0.elapsed().as_secs_f64(), rs.join(", "), fs.join(",\n"));
        std::fs::write(&out, j).expect("write result");
        println!("{}: {} paths={} forks={} queries={} cached={} solver={:.2}s wall={:.2}s insts={} {}", h, status, st.paths, st.forks, s.queries, s.cached, s.time, t0.elapsed().as_secs_f64(), st.steps, what.lines().next().unwrap_or(""));
        if trace { eprintln!("{}", what); }
    }).unwrap();
    if th.join().is_err() { std::process::exit(5); }
}
