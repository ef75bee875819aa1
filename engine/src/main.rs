mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use std::fmt::Write as _;
use std::io::Write as _;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Job {
    entry: String,
    arg: u64,
    hash: String,
}

fn main() {
    let mut ll = String::new();
    let mut jobs_file = String::new();
    let mut out = String::new();
    let mut workers = 8usize;
    let mut max_insts = 150_000_000u64;
    let mut job_secs = 600.0f64;
    let mut samples = 4usize;
    let mut max_viol = 3usize;
    let mut stop_after = 6u64;
    let mut deadline = 1e9f64;
    let t0 = std::time::Instant::now();
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--ll" => ll = v(),
            "--jobs" => jobs_file = v(),
            "--out" => out = v(),
            "--workers" => workers = v().parse().unwrap(),
            "--max-insts" => max_insts = v().parse().unwrap(),
            "--job-secs" => job_secs = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--deadline" => deadline = v().parse().unwrap(),
            "--stop-after" => stop_after = v().parse().unwrap(),
            _ => panic!("unknown option {}", k),
        }
    }
    let text = std::fs::read(&ll).expect("ll");
    std::panic::set_hook(Box::new(|_| ()));
    let m: &'static ir::Module = Box::leak(Box::new(ir::parse(&text)));
    let _ = std::panic::take_hook();
    drop(text);
    let ext = exec::classify(m);
    let n_hash = ext.iter().filter(|e| **e == exec::Ext::HashOne).count();
    let jobs: Vec<Job> = std::fs::read_to_string(&jobs_file)
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut p = l.split_whitespace();
            Job { entry: p.next().unwrap().into(), arg: p.next().unwrap().parse().unwrap(), hash: p.next().unwrap_or("const").into() }
        })
        .collect();
    let base = mem::Mem::new(&m.image);
    // shared counters: [0] next job, [1] violations so far
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicU64;
    let next = unsafe { &*sh };
    let nviol = unsafe { &*sh.add(1) };
    // per worker: [8+w] job under way + 1, [72+w] when it started (ms)
    let slot = |w: usize| unsafe { (&*sh.add(8 + w), &*sh.add(72 + w)) };
    use std::sync::atomic::Ordering::SeqCst;
    let ms = || t0.elapsed().as_millis() as u64;
    let spawn = |wi: usize| -> i32 {
        let pid = unsafe { fork() };
        if pid == 0 {
            let f = format!("{}.w{}", out, wi);
            // deep recursion over expressions: run on a large stack
            let jobs_ptr = &jobs as *const Vec<Job> as usize;
            let base_ptr = &base as *const mem::Mem as usize;
            let m_ptr = m as *const ir::Module as usize;
            let sh_ptr = sh as usize;
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let jobs = unsafe { &*(jobs_ptr as *const Vec<Job>) };
                    let base = unsafe { &*(base_ptr as *const mem::Mem) };
                    let m: &'static ir::Module = unsafe { &*(m_ptr as *const ir::Module) };
                    let sh = sh_ptr as *mut std::sync::atomic::AtomicU64;
                    let (cur, start) = unsafe { (&*sh.add(8 + wi), &*sh.add(72 + wi)) };
                    let mut w = std::fs::OpenOptions::new().append(true).create(true).open(&f).unwrap();
                    loop {
                        let i = next.fetch_add(1, SeqCst) as usize;
                        if i >= jobs.len() {
                            break;
                        }
                        let left = deadline - t0.elapsed().as_secs_f64();
                        if nviol.load(SeqCst) >= stop_after || left < 1.0 {
                            w.write_all(format!("{{\"job\":{},\"skipped\":true}}\n", i).as_bytes()).unwrap();
                            continue;
                        }
                        start.store(t0.elapsed().as_millis() as u64, SeqCst);
                        cur.store(i as u64 + 1, SeqCst);
                        let j = &jobs[i];
                        let hash = if j.hash == "const" { exec::Hash::Const } else { exec::Hash::Seed(j.hash.trim_start_matches("seed").parse().unwrap()) };
                        let mut x = exec::Exec::new(m, base.clone(), hash, exec::Limits { max_insts_path: max_insts, job_secs: job_secs.min(left), max_viol, samples });
                        let r = x.run(&j.entry, j.arg);
                        if let Err(e) = r {
                            x.stats.incomplete = Some(e);
                        }
                        let line = report(i, j, &x) + "\n";
                        cur.store(0, SeqCst);
                        w.write_all(line.as_bytes()).unwrap();
                        nviol.fetch_add(x.viol.len() as u64, SeqCst);
                    }
                })
                .unwrap();
            let ok = h.join().is_ok();
            unsafe { _exit(if ok { 0 } else { 71 }) }
        }
        pid
    };
    let mut pids: Vec<i32> = (0..workers).map(|w| spawn(w)).collect();
    let mut bad = 0;
    let mut killed: Vec<usize> = Vec::new();
    while pids.iter().any(|p| *p != 0) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        for w in 0..workers {
            if pids[w] == 0 {
                continue;
            }
            let mut s = 0;
            if unsafe { waitpid(pids[w], &mut s, 1) } == pids[w] {
                pids[w] = 0;
                if s != 0 {
                    let cur = slot(w).0.load(SeqCst);
                    eprintln!("worker ended with status {} in job {}", s, cur as i64 - 1);
                    bad += 1;
                }
                continue;
            }
            // a query that outlives its limits is ended with its worker
            let (cur, start) = (slot(w).0.load(SeqCst), slot(w).1.load(SeqCst) as f64 / 1000.0);
            let now = ms() as f64 / 1000.0;
            if cur != 0 && (now > start + job_secs + 15.0 || now > deadline + 15.0) {
                unsafe {
                    kill(pids[w], 9);
                    waitpid(pids[w], &mut s, 0);
                }
                pids[w] = 0;
                let cur = slot(w).0.swap(0, SeqCst);
                if cur != 0 {
                    killed.push(cur as usize - 1);
                }
                pids[w] = spawn(w);
            }
        }
    }
    let mut o = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    writeln!(o, "{{\"module\":{{\"functions\":{},\"ir_hash\":\"{:016x}\",\"hash_one\":{},\"bad_workers\":{},\"names\":{{{}}}}}}}", m.funcs.len(), m.hash, n_hash, bad, names(m)).unwrap();
    for i in killed {
        writeln!(o, "{{\"job\":{},\"killed\":true,\"entry\":{},\"arg\":{}}}", i, js(&jobs[i].entry), jobs[i].arg).unwrap();
    }
    for wi in 0..workers {
        let f = format!("{}.w{}", out, wi);
        if let Ok(s) = std::fs::read_to_string(&f) {
            o.write_all(s.as_bytes()).unwrap();
        }
        let _ = std::fs::remove_file(&f);
    }
    o.flush().unwrap();
    std::process::exit(if bad > 0 { 71 } else { 0 });
}

/// Functions reported as covered: those of the repository's crates (generic instances included).
fn ours(f: &ir::Func) -> bool {
    (f.dem.contains("tokenizer::") || f.dem.contains("parser::")) && !(f.dem.contains("regex_syntax::parser::Parser") && !f.dem.contains("tokenizer::"))
}

fn names(m: &ir::Module) -> String {
    let v: Vec<String> = m.funcs.iter().enumerate().filter(|(_, f)| ours(f)).map(|(i, f)| format!("\"{}\":{}", i, js(&f.dem))).collect();
    v.join(",")
}

fn report(i: usize, j: &Job, x: &exec::Exec) -> String {
    let s = &x.stats;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"job\":{},\"entry\":{},\"arg\":{},\"hash\":{},\"paths\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"sym_asserts\":{},\"assumed_out\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"undecided\":{},\"solver_s\":{:.4},\"max_query_s\":{:.4},\"wall\":{:.3},\"peak_states\":{},\"nvars\":{},\"exprs\":{},\"incomplete\":{}",
        i,
        js(&j.entry),
        j.arg,
        js(&j.hash),
        s.paths,
        s.forks,
        s.insts,
        s.asserts,
        s.sym_asserts,
        s.assumed_out,
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.undecided,
        s.solver_s,
        s.max_query_s,
        s.wall,
        s.peak_states,
        s.nvars_max,
        x.ar.nodes.len(),
        s.incomplete.as_ref().map(|e| js(e)).unwrap_or("null".into())
    );
    o.push_str(",\"covers\":{");
    for (k, (c, n)) in s.covers.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if k > 0 { "," } else { "" }, c, n);
    }
    o.push_str("},\"violations\":[");
    for (k, v) in x.viol.iter().enumerate() {
        let _ = write!(o, "{}{{\"kind\":{},\"code\":{},\"what\":{},\"model\":{:?},\"trace\":[{}]}}", if k > 0 { "," } else { "" }, js(&v.kind), v.code, js(&v.what), v.model, v.trace.iter().take(14).map(|t| js(t)).collect::<Vec<_>>().join(","));
    }
    o.push_str("],\"samples\":[");
    for (k, v) in x.samples.iter().enumerate() {
        let _ = write!(o, "{}{{\"model\":{:?},\"obs\":{:?}}}", if k > 0 { "," } else { "" }, v.model, v.obs);
    }
    o.push_str("],\"cov\":[");
    let mut first = true;
    for (fi, c) in x.cov.iter().enumerate() {
        let n: u32 = c.iter().map(|w| w.count_ones()).sum();
        if n > 0 {
            if ours(&x.m.funcs[fi]) {
                let _ = write!(o, "{}[{},{},{}]", if first { "" } else { "," }, fi, n, x.m.funcs[fi].blocks.len());
                first = false;
            }
        }
    }
    o.push_str("]}");
    o
}
