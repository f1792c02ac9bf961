//! Runs one harness natively on the solver's model.
//! usage: replay <harness> <file with one hex value per line>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = if a.len() > 2 { std::fs::read_to_string(&a[2]).expect("replay file") } else { String::new() };
    let mut vals = Vec::new();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        let b = l.as_bytes();
        let mut v = Vec::new();
        let mut i = 0;
        while i + 1 < b.len() { v.push(u8::from_str_radix(&l[i..i + 2], 16).expect("hex")); i += 2; }
        vals.push(v);
    }
    nd::load(vals, std::env::var("REPLAY_TRACE").is_ok());
    let name = a[1].clone();
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        if !coerce::verif_harness::dispatch(&name) { eprintln!("REPLAY-MISMATCH: no such harness"); std::process::exit(3); }
    }).unwrap();
    match t.join() {
        Ok(_) => { println!("REPLAY-OK"); }
        Err(_) if unsafe { nd::PANIC_OK } => { println!("REPLAY-OK (allowed panic)"); }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("REPLAY-PANIC {}", m);
            std::process::exit(1);
        }
    }
}
