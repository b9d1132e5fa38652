mod exec;
mod expr;
mod gf2;
mod iv;
mod ll;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

struct Shared {
    q: Mutex<(Vec<Work>, usize)>, // (pending, active workers)
    cv: Condvar,
    stop: AtomicBool,
    npaths: AtomicUsize,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn inputs_json(v: &[(String, u16, u128)]) -> String {
    format!("[{}]", v.iter().map(|(n, w, x)| format!("[{},{},{}]", esc(n), w, esc(&x.to_string()))).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Agg {
    done: u64, pruned: u64, viol: Vec<Violation>, incon: BTreeSet<String>, covers: BTreeSet<String>, touched: HashSet<u32>, steps: u64, asserts: u64, implicit: u64,
    samples: Vec<(Vec<(String, u16, u128)>, Vec<(String, u128)>, usize)>, q: z3::Stats, sigs: HashMap<String, usize>, maxpc: usize, maxsteps: u64, gf: u64, iv: u64, first: Option<Instant>,
}

fn rss() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 }
fn mem_total() -> u64 { std::fs::read_to_string("/proc/meminfo").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).map_or(u64::MAX, |x| x * 1024) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entries: Vec<String> = vec![];
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut timeout = 600.0f64;
    let mut total = 1e9f64;
    let mut solver_ms = 60_000u32;
    let mut max_steps = 30_000_000u64;
    let mut max_enum = 1100u64;
    let mut trace = false;
    let mut known: std::collections::HashSet<String> = Default::default();
    let mut nsamples = 8usize;
    let mut i = 1;
    while i < args.len() {
        let nx = |i: &mut usize| { *i += 1; args[*i].clone() };
        match args[i].as_str() {
            "--entry" => entries.push(nx(&mut i)),
            "--out" => out = nx(&mut i),
            "--jobs" => jobs = nx(&mut i).parse().unwrap(),
            "--timeout" => timeout = nx(&mut i).parse().unwrap(),
            "--total" => total = nx(&mut i).parse().unwrap(),
            "--solver-ms" => solver_ms = nx(&mut i).parse().unwrap(),
            "--max-steps" => max_steps = nx(&mut i).parse().unwrap(),
            "--max-enum" => max_enum = nx(&mut i).parse().unwrap(),
            "--samples" => nsamples = nx(&mut i).parse().unwrap(),
            "--known" => { known.insert(nx(&mut i)); }
            "--trace" => trace = true,
            f => file = f.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read module");
    let m = match ll::Module::load(text) { Ok(m) => m, Err(e) => { eprintln!("cannot load module: {}", e); std::process::exit(4); } };
    let mut hooks = vec![Hook::None; m.funcs.len()];
    let empty = m.fn_by_name.get("rsym_empty_string").copied();
    for (k, f) in m.funcs.iter().enumerate() {
        hooks[k] = hook_of(&f.name);
        if f.name.contains("5alloc3fmt6format12format_inner") { if let Some(e) = empty { hooks[k] = Hook::Redirect(e); } }
    }
    let ng = m.globals.len();
    let prog = Arc::new(Prog { m, hooks, gl_data: (0..ng).map(|_| std::sync::OnceLock::new()).collect() });
    eprintln!("loaded {} functions in {:.2}s", prog.m.funcs.len(), t0.elapsed().as_secs_f64());
    let cfg = Arc::new(Config { max_steps, max_obj_enum: max_enum, solver_ms, trace, trace_slow: std::env::var("RSYM_DBG").is_ok() });
    let mut results = vec![];
    let mem_limit = mem_total() / 100 * 72;
    // once a violation is found the verdict is settled: what is left gets little time
    let mut settled = false;
    for entry in &entries {
        let timeout = if settled { timeout.min(8.0) } else { timeout };
        let grace = if known.contains(entry) { 60.0 } else { 12.0 };
        let fid = match prog.m.fn_by_name.get(entry.as_str()) { Some(f) => *f, None => { eprintln!("no entry {}", entry); std::process::exit(4); } };
        let t1 = Instant::now();
        let sh = Arc::new(Shared { q: Mutex::new((vec![Work { model: vec![], skip: 0, fixed: vec![] }], 0)), cv: Condvar::new(), stop: AtomicBool::new(false), npaths: AtomicUsize::new(0) });
        let agg = Arc::new(Mutex::new(Agg::default()));
        let mut hs = vec![];
        for _ in 0..jobs {
            let (sh, agg, prog, cfg) = (sh.clone(), agg.clone(), prog.clone(), cfg.clone());
            hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                let mut run = Run::new(&prog, &cfg);
                loop {
                    let w = {
                        let mut g = sh.q.lock().unwrap();
                        loop {
                            if sh.stop.load(Ordering::SeqCst) { break None; }
                            if let Some(w) = g.0.pop() { g.1 += 1; break Some(w); }
                            if g.1 == 0 { sh.cv.notify_all(); break None; }
                            g = sh.cv.wait_timeout(g, std::time::Duration::from_millis(50)).unwrap().0;
                        }
                    };
                    let w = match w { Some(w) => w, None => break };
                    let end = run.run_path(fid, w);
                    sh.npaths.fetch_add(1, Ordering::Relaxed);
                    let news = std::mem::take(&mut run.out);
                    let mut vs = std::mem::take(&mut run.violations);
                    {
                        let mut a = agg.lock().unwrap();
                        a.maxsteps = a.maxsteps.max(run.steps);
                        match end {
                            End::Done => {
                                a.done += 1;
                                let pl = run.pc_len();
                                a.maxpc = a.maxpc.max(pl);
                                if a.samples.len() < nsamples { let s = run.path_inputs(); let o = run.obs.clone(); a.samples.push((s, o, pl)); }
                                else if a.done % 97 == 0 { let k = (a.done / 97) as usize % nsamples; let s = run.path_inputs(); let o = run.obs.clone(); a.samples[k] = (s, o, pl); }
                            }
                            End::Pruned => a.pruned += 1,
                            End::Violation(v) => vs.push(*v),
                            End::Inconclusive(s) => { a.incon.insert(s); }
                        }
                        for v in vs {
                            let sig = format!("{}|{}|{}", v.kind, v.msg, v.stack.iter().find(|s| s.contains("13level_db_rust")).cloned().unwrap_or_default());
                            let c = a.sigs.entry(sig).or_insert(0);
                            *c += 1;
                            if *c == 1 && a.viol.len() < 40 { a.viol.push(v); }
                            if a.first.is_none() { a.first = Some(Instant::now()); }
                        }
                        let inc = std::mem::take(&mut run.incon);
                        a.incon.extend(inc);
                        if a.incon.len() > 200 { sh.stop.store(true, Ordering::SeqCst); }
                    }
                    {
                        let mut g = sh.q.lock().unwrap();
                        g.0.extend(news);
                        g.1 -= 1;
                        sh.cv.notify_all();
                    }
                    let late = agg.lock().unwrap().first.map_or(false, |f| f.elapsed().as_secs_f64() > grace);
                    if late || t1.elapsed().as_secs_f64() > timeout || t0.elapsed().as_secs_f64() > total { sh.stop.store(true, Ordering::SeqCst); }
                }
                let mut a = agg.lock().unwrap();
                a.covers.extend(run.covers.drain());
                a.touched.extend(run.touched.drain());
                a.steps += run.total_steps;
                a.asserts += run.asserts;
                a.implicit += run.implicit;
                a.gf += run.gf_decided; a.iv += run.iv_decided;
                let s = &run.z.stats;
                a.q.queries += s.queries; a.q.sat += s.sat; a.q.unsat += s.unsat; a.q.unknown += s.unknown; a.q.cached += s.cached; a.q.time_us += s.time_us; a.q.max_us = a.q.max_us.max(s.max_us);
                std::mem::forget(run);
            }).unwrap());
        }
        let mut ticks = 0u32; let mut fat = false; let mut fat_at: Option<Instant> = None;
        // z3 may ignore its time limit: do not wait for such a worker for ever
        let mut stuck = false;
        loop {
            if hs.iter().all(|h| h.is_finished()) { break; }
            std::thread::sleep(std::time::Duration::from_millis(2));
            let late = agg.lock().unwrap().first.map_or(0.0, |f| f.elapsed().as_secs_f64());
            if late > grace { sh.stop.store(true, Ordering::SeqCst); if late > grace + 4.0 { stuck = true; break; } }
            ticks += 1;
            if ticks % 100 == 0 && !fat && rss() > mem_limit { fat = true; agg.lock().unwrap().incon.insert("memory limit".into()); sh.stop.store(true, Ordering::SeqCst); fat_at = Some(Instant::now()); }
            if fat && fat_at.map_or(false, |f| f.elapsed().as_secs_f64() > 3.0) { stuck = true; break; }
            if t1.elapsed().as_secs_f64() > timeout || t0.elapsed().as_secs_f64() > total {
                sh.stop.store(true, Ordering::SeqCst);
                if t1.elapsed().as_secs_f64() > timeout + if settled { 4.0 } else { 60.0 } || t0.elapsed().as_secs_f64() > total + 60.0 { stuck = true; break; }
            }
        }
        for h in hs { if h.is_finished() && h.join().is_err() { agg.lock().unwrap().incon.insert("engine worker crashed".into()); } }
        if stuck { agg.lock().unwrap().incon.insert("a query did not return within the time limit".into()); }
        let mut a = agg.lock().unwrap();
        if !a.viol.is_empty() && !known.contains(entry) { settled = true; }
        let left = sh.q.lock().unwrap().0.len();
        if left > 0 { let s = format!("time limit: {} unexplored paths", left); a.incon.insert(s); }
        let fns: BTreeSet<String> = a.touched.iter().map(|f| prog.m.funcs[*f as usize].name.to_string()).filter(|n| n.contains("13level_db_rust")).collect();
        let viol = a.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{},\"undef\":{}}}", esc(&v.kind), esc(&v.msg), v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), inputs_json(&v.inputs), v.undef_dep)).collect::<Vec<_>>().join(",");
        let sm = a.samples.iter().map(|(s, o, pl)| format!("{{\"inputs\":{},\"observed\":[{}],\"path_constraints\":{}}}", inputs_json(s), o.iter().map(|(n, v)| format!("[{},{}]", esc(n), esc(&v.to_string()))).collect::<Vec<_>>().join(","), pl)).collect::<Vec<_>>().join(",");
        let r = format!(
            "{{\"entry\":{},\"paths_done\":{},\"paths_pruned\":{},\"paths_left\":{},\"violations\":[{}],\"inconclusive\":[{}],\"covers\":[{}],\"functions\":[{}],\"steps\":{},\"max_path_steps\":{},\"asserts\":{},\"implicit\":{},\"gf2_decided\":{},\"interval_decided\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_path_constraints\":{},\"wall_s\":{:.3},\"samples\":[{}]}}",
            esc(entry), a.done, a.pruned, left, viol,
            a.incon.iter().take(20).map(|s| esc(s)).collect::<Vec<_>>().join(","),
            a.covers.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            fns.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            a.steps, a.maxsteps, a.asserts, a.implicit, a.gf, a.iv, a.q.queries, a.q.sat, a.q.unsat, a.q.unknown, a.q.cached, a.q.time_us as f64 / 1e6, a.q.max_us as f64 / 1e6, a.maxpc, t1.elapsed().as_secs_f64(), sm);
        eprintln!("{}: done {} pruned {} left {} viol {} incon {:?} queries {} solver {:.1}s wall {:.1}s steps {} (max {})", entry, a.done, a.pruned, left, a.viol.len(), a.incon.iter().take(3).collect::<Vec<_>>(), a.q.queries, a.q.time_us as f64 / 1e6, t1.elapsed().as_secs_f64(), a.steps, a.maxsteps);
        for v in a.viol.iter().take(6) { eprintln!("   {} {} @ {:?} inputs {:?}", v.kind, v.msg, v.stack.iter().take(4).collect::<Vec<_>>(), v.inputs); }
        results.push(r);
        // what a path in a runaway query holds is not given back
        if fat { break; }
    }
    let j = format!("[{}]", results.join(",\n"));
    if out.is_empty() { println!("{}", j); } else { std::fs::write(&out, j).unwrap(); }
    std::process::exit(0);
}
