//! Parent / worker processes, evidence and replay files.

use crate::engine::*;
use crate::json::esc;
use crate::props::{self, Prop, Suite};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn scratch_base() -> PathBuf {
    let name = format!("dochy-verif-{}-{:x}", std::process::id(), {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        t.subsec_nanos()
    });
    let mut cands: Vec<PathBuf> = vec![];
    if let Ok(p) = std::env::var("VERIF_SCRATCH") {
        cands.push(PathBuf::from(p));
    }
    cands.push(PathBuf::from("/dev/shm"));
    cands.push(std::env::temp_dir());
    for c in cands {
        let p = c.join(&name);
        if std::fs::create_dir(&p).is_ok() {
            if std::fs::write(p.join("probe"), [0u8; 4096]).is_ok() {
                let _ = std::fs::remove_file(p.join("probe"));
                return p;
            }
            let _ = std::fs::remove_dir_all(&p);
        }
    }
    panic!("no scratch directory");
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn main(args: &[String]) -> i32 {
    match args.get(0).map(|s| s.as_str()) {
        Some("check") => check(args),
        Some("worker") => worker(args),
        Some("replay") => replay(args),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID TIER [asan-binary] | replay FILE | list");
            2
        }
    }
}

fn case_seed(seed: u64, prop: &str, suite: &str, i: u64) -> u64 {
    let h = hash_bytes(seed, prop.as_bytes());
    let h = hash_bytes(h, suite.as_bytes());
    mix(h ^ mix(i))
}

fn opt<'a>(args: &'a [String], key: &str) -> Option<&'a str> {
    args.iter().position(|a| a == key).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

// ------------------------------------------------------------------ worker

/// Exit codes: 0 done, 10 violation (details in out file), 99 sanitizer report.
fn worker(args: &[String]) -> i32 {
    install_panic_hook();
    let prop = find(opt(args, "--prop").unwrap()).unwrap();
    if prop.id == "M01" {
        crate::count_bytes();
    }
    let suite = prop.suites.iter().find(|s| s.name == opt(args, "--suite").unwrap()).unwrap();
    let seed: u64 = opt(args, "--seed").unwrap().parse().unwrap();
    let start: u64 = opt(args, "--start").unwrap().parse().unwrap();
    let stride: u64 = opt(args, "--stride").unwrap().parse().unwrap();
    let end: u64 = opt(args, "--end").unwrap().parse().unwrap();
    let thorough = opt(args, "--tier") == Some("thorough");
    let scratch = PathBuf::from(opt(args, "--scratch").unwrap());
    let out = PathBuf::from(opt(args, "--out").unwrap());
    let cur_path = PathBuf::from(opt(args, "--cur").unwrap());
    let shrink_secs: u64 = opt(args, "--shrink").and_then(|s| s.parse().ok()).unwrap_or(60);
    std::fs::create_dir_all(&scratch).unwrap();
    let mut cur = std::fs::OpenOptions::new().create(true).write(true).open(&cur_path).unwrap();

    if let Some(choices) = opt(args, "--choices-file") {
        // run one explicit choice sequence (crash shrinking and replay)
        let text = std::fs::read_to_string(choices).unwrap();
        let v = crate::json::num_array(&text, "choices").unwrap();
        let mut g = Gen::replay(v);
        let mut cx = Cx::new(&scratch, 0, thorough);
        cx.trace = args.iter().any(|a| a == "--trace");
        return match run_once(suite.run, &mut g, &mut cx) {
            Outcome::Pass | Outcome::Discard => 0,
            Outcome::Fail(m) => {
                println!("FAIL {}", m);
                if let Some(s) = &cx.sample {
                    println!("case: {}", s);
                }
                10
            }
        };
    }

    let mut st = Stats::default();
    let mut i = start;
    let mut n_local = 0u64;
    while i < end {
        use std::os::unix::fs::FileExt;
        let _ = cur.write_at(&i.to_le_bytes(), 0);
        let cs = case_seed(seed, prop.id, suite.name, i);
        let mut g = Gen::random(cs);
        let mut cx = Cx::new(&scratch, i, thorough);
        let o = run_once(suite.run, &mut g, &mut cx);
        match o {
            Outcome::Discard => st.discards += 1,
            Outcome::Pass => {
                st.evaluations += 1;
                if cx.nontrivial {
                    st.nontrivial += 1;
                    let h = cx.case_hash.unwrap_or_else(|| {
                        let mut h = 17u64;
                        for c in &g.rec {
                            h = mix(h ^ *c);
                        }
                        h
                    });
                    st.distinct.insert(h);
                    if st.samples.len() < 2 && (n_local % 7 == 3 || end - start < 50 * stride) {
                        if let Some(s) = cx.sample.take() {
                            st.samples.push(s);
                        }
                    }
                }
                for l in cx.labels.drain(..) {
                    *st.labels.entry(l).or_insert(0) += 1;
                }
                for (k, v) in cx.counters.drain(..) {
                    *st.counters.entry(k).or_insert(0) += v;
                }
                for k in cx.excluded.drain(..) {
                    *st.excluded.entry(k).or_insert(0) += 1;
                }
            }
            Outcome::Fail(msg) => {
                let orig = g.rec.clone();
                let run = suite.run;
                let mut last_msg = msg.clone();
                let mut last_sample = cx.sample.clone();
                let sc = scratch.clone();
                let (best, evals) = shrink(orig.clone(), g.spans.clone(), Duration::from_secs(shrink_secs), |c| {
                    let mut g = Gen::replay(c.to_vec());
                    let mut cx = Cx::new(&sc, i, thorough);
                    match run_once(run, &mut g, &mut cx) {
                        Outcome::Fail(m) => {
                            last_msg = m.clone();
                            last_sample = cx.sample.clone();
                            Some((g.rec, g.spans, m))
                        }
                        _ => None,
                    }
                });
                // final message of the best case
                let mut g2 = Gen::replay(best.clone());
                let mut cx2 = Cx::new(&scratch, i, thorough);
                let (fmsg, fsample) = match run_once(run, &mut g2, &mut cx2) {
                    Outcome::Fail(m) => (m, cx2.sample.clone()),
                    _ => (msg.clone(), None),
                };
                let text = replay_text(&prop, suite, seed, i, &best, &orig, &fmsg, fsample.as_deref(), evals);
                std::fs::write(out.with_extension("fail"), text).unwrap();
                write_stats(&out, &st);
                return 10;
            }
        }
        i += stride;
        n_local += 1;
        // threads that wait for background saves of directories no longer used; another process goes on
        if n_local % 16 == 0 && i < end && threads() > 120 {
            write_stats(&out, &st);
            return MORE;
        }
    }
    let _ = cur.flush();
    write_stats(&out, &st);
    0
}

/// exit code of a worker that has cases left
const MORE: i32 = 11;

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn replay_text(prop: &Prop, suite: &Suite, seed: u64, index: u64, best: &[u64], orig: &[u64], msg: &str, sample: Option<&str>, evals: u64) -> String {
    format!(
        "{{\n \"property\": {},\n \"suite\": {},\n \"seed\": {},\n \"index\": {},\n \"message\": {},\n \"case\": {},\n \"shrink_evaluations\": {},\n \"original_length\": {},\n \"choices\": [{}],\n \"original\": [{}]\n}}\n",
        esc(prop.id), esc(suite.name), seed, index, esc(msg), esc(sample.unwrap_or("")), evals, orig.len(), nums(best), nums(orig)
    )
}

fn write_stats(out: &Path, st: &Stats) {
    let mut s = String::new();
    s.push_str(&format!("E\t{}\nD\t{}\nN\t{}\n", st.evaluations, st.discards, st.nontrivial));
    for h in &st.distinct {
        s.push_str(&format!("H\t{:x}\n", h));
    }
    for (k, v) in &st.labels {
        s.push_str(&format!("L\t{}\t{}\n", v, k));
    }
    for (k, v) in &st.counters {
        s.push_str(&format!("C\t{}\t{}\n", v, k));
    }
    for (k, v) in &st.excluded {
        s.push_str(&format!("X\t{}\t{}\n", v, k));
    }
    for x in &st.samples {
        let x = x.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ");
        s.push_str(&format!("S\t{}\n", x));
    }
    std::fs::write(out, s).unwrap();
}

fn merge_stats(st: &mut Stats, text: &str) {
    for line in text.lines() {
        let mut p = line.splitn(3, '\t');
        let k = p.next().unwrap_or("");
        let a = p.next().unwrap_or("");
        let b = p.next().unwrap_or("");
        match k {
            "E" => st.evaluations += a.parse::<u64>().unwrap_or(0),
            "D" => st.discards += a.parse::<u64>().unwrap_or(0),
            "N" => st.nontrivial += a.parse::<u64>().unwrap_or(0),
            "H" => {
                st.distinct.insert(u64::from_str_radix(a, 16).unwrap_or(0));
            }
            "L" => *st.labels.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap_or(0),
            "C" => *st.counters.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap_or(0),
            "X" => *st.excluded.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap_or(0),
            "S" => st.samples.push(line[2..].replace("\\n", "\n").replace("\\\\", "\\")),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ parent

struct W {
    child: Child,
    args: Vec<String>,
    out: PathBuf,
    cur: PathBuf,
    last: (u64, Instant),
    bin: PathBuf,
    done: bool,
}

fn read_cur(p: &Path) -> Option<u64> {
    let mut b = [0u8; 8];
    let mut f = std::fs::File::open(p).ok()?;
    f.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}

pub enum SuiteEnd {
    Ok,
    Violation(String), // path of replay
    Error(String),
}

const HANG: Duration = Duration::from_secs(180);

fn is_crash(code: Option<i32>, sig: Option<i32>) -> bool {
    match (code, sig) {
        (_, Some(s)) => s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGILL || s == libc::SIGFPE,
        (Some(99), _) => true,
        _ => false,
    }
}

fn spawn_worker(bin: &Path, args: &[String]) -> std::io::Result<Child> {
    Command::new(bin)
        .args(args)
        .env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:allocator_may_return_null=1:log_path=/dev/null")
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
}

/// Runs one explicit sequence in a fresh process: (exit code, signal, stdout)
fn run_choices(bin: &Path, prop: &str, suite: &str, tier: &str, choices: &[u64], dir: &Path, limit: Duration) -> (Option<i32>, Option<i32>, String) {
    let f = dir.join("choices.json");
    std::fs::write(&f, format!("{{\"choices\": [{}]}}", nums(choices))).unwrap();
    let sc = dir.join("one");
    let args: Vec<String> = vec![
        "worker", "--prop", prop, "--suite", suite, "--seed", "0", "--start", "0", "--stride", "1", "--end", "0",
        "--tier", tier, "--scratch", sc.to_str().unwrap(), "--out", dir.join("one.out").to_str().unwrap(),
        "--cur", dir.join("one.cur").to_str().unwrap(), "--choices-file", f.to_str().unwrap(),
    ].into_iter().map(String::from).collect();
    let mut c = Command::new(bin)
        .args(&args)
        .env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:allocator_may_return_null=1")
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let mut so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let s = h.join().unwrap_or_default();
            clean_dir(&sc);
            return (st.code(), st.signal(), s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return (None, None, String::new());
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn run_suite(prop: &Prop, suite: &Suite, n: u64, seed: u64, tier: &str, bin: &Path, tag: &str, base: &Path, st: &mut Stats, deadline: Instant) -> SuiteEnd {
    if n == 0 {
        return SuiteEnd::Ok;
    }
    let workers = suite.workers.min(n).max(1);
    let mut ws: Vec<W> = vec![];
    for w in 0..workers {
        let out = base.join(format!("{}-{}-{}.out", suite.name, tag, w));
        let cur = base.join(format!("{}-{}-{}.cur", suite.name, tag, w));
        let sc = base.join(format!("{}-{}-{}", suite.name, tag, w));
        let args: Vec<String> = vec![
            "worker".into(), "--prop".into(), prop.id.to_string(), "--suite".into(), suite.name.to_string(),
            "--seed".into(), seed.to_string(), "--start".into(), w.to_string(), "--stride".into(), workers.to_string(),
            "--end".into(), n.to_string(), "--tier".into(), tier.to_string(),
            "--scratch".into(), sc.display().to_string(), "--out".into(), out.display().to_string(),
            "--cur".into(), cur.display().to_string(),
        ];
        match spawn_worker(bin, &args) {
            Ok(child) => ws.push(W { child, args, out, cur, last: (u64::MAX, Instant::now()), bin: bin.to_path_buf(), done: false }),
            Err(e) => return SuiteEnd::Error(format!("cannot start worker: {}", e)),
        }
    }
    let mut result = SuiteEnd::Ok;
    let mut failing: Option<PathBuf> = None;
    let mut crashed: Option<(u64, PathBuf, String)> = None;
    'outer: loop {
        let mut all = true;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(s)) if s.code() == Some(MORE) => {
                    all = false;
                    if let Ok(t) = std::fs::read_to_string(&w.out) {
                        merge_stats(st, &t);
                    }
                    let _ = std::fs::remove_file(&w.out);
                    let k = w.args.iter().position(|a| a == "--start").unwrap() + 1;
                    w.args[k] = (read_cur(&w.cur).unwrap_or(0) + workers).to_string();
                    match spawn_worker(&w.bin, &w.args) {
                        Ok(child) => w.child = child,
                        Err(e) => {
                            w.done = true;
                            result = SuiteEnd::Error(format!("cannot start worker: {}", e));
                            break 'outer;
                        }
                    }
                }
                Ok(Some(s)) => {
                    w.done = true;
                    match (s.code(), s.signal()) {
                        (Some(0), _) => {}
                        (Some(10), _) => {
                            failing = Some(w.out.with_extension("fail"));
                            break 'outer;
                        }
                        (c, sig) if is_crash(c, sig) => {
                            crashed = Some((read_cur(&w.cur).unwrap_or(0), w.bin.clone(), format!("exit code {:?}, signal {:?}", c, sig)));
                            break 'outer;
                        }
                        (c, sig) => {
                            result = SuiteEnd::Error(format!("worker ended unexpectedly: exit code {:?}, signal {:?}, case {:?}", c, sig, read_cur(&w.cur)));
                            break 'outer;
                        }
                    }
                }
                Ok(None) => {
                    all = false;
                    if let Some(c) = read_cur(&w.cur) {
                        if c != w.last.0 {
                            w.last = (c, Instant::now());
                        } else if w.last.1.elapsed() > HANG && !w.out.with_extension("fail").exists() {
                            result = SuiteEnd::Error(format!("case {} of suite {} did not finish within {:?}", c, suite.name, HANG));
                            break 'outer;
                        }
                    }
                }
                Err(e) => {
                    result = SuiteEnd::Error(format!("wait: {}", e));
                    break 'outer;
                }
            }
        }
        if all {
            break;
        }
        if Instant::now() > deadline {
            result = SuiteEnd::Error("time limit".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
        if let Ok(t) = std::fs::read_to_string(&w.out) {
            merge_stats(st, &t);
        }
    }
    let rdir = verif_root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    if let Some(f) = failing {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let best = crate::json::num_array(&text, "choices").unwrap_or_default();
        let orig = crate::json::num_array(&text, "original").unwrap_or_default();
        let rd = base.join("confirm");
        let _ = std::fs::create_dir_all(&rd);
        let mut confirmed = false;
        let tries = if suite.deterministic { 3 } else { 20 };
        'c: for v in [&best, &orig] {
            for _ in 0..tries {
                let (c, s, _) = run_choices(bin, prop.id, suite.name, tier, v, &rd, HANG);
                if c == Some(10) || is_crash(c, s) {
                    confirmed = true;
                    break 'c;
                }
            }
        }
        let message = crate::json::str_field(&text, "message").unwrap_or_default();
        if message.contains(": scratch") || message.contains("HARNESS") || message.contains("failed to spawn thread") {
            return SuiteEnd::Error(format!("trouble in the harness itself: {}", message));
        }
        if !confirmed {
            // e.g. behaviour that depends on hash map order or on what the process did before
            println!("suite {}: the failure below was observed but did not recur in a fresh process", suite.name);
        }
        let p = rdir.join(format!("{}-{}-{:016x}.json", prop.id, suite.name, hash_bytes(1, text.as_bytes())));
        let _ = std::fs::write(&p, &text);
        println!("suite {}: {}", suite.name, crate::json::str_field(&text, "message").unwrap_or_default());
        if let Some(c) = crate::json::str_field(&text, "case") {
            if !c.is_empty() {
                println!("case: {}", c);
            }
        }
        return SuiteEnd::Violation(p.display().to_string());
    }
    if let Some((idx, bin, how)) = crashed {
        // Re-create the choices of the crashing case by index, then shrink across processes.
        let rd = base.join("confirm");
        let _ = std::fs::create_dir_all(&rd);
        let choices = recorded_choices(prop, suite, seed, idx, tier, &bin, &rd);
        let crash = |v: &[u64]| -> Option<String> {
            let (c, s, out) = run_choices(&bin, prop.id, suite.name, tier, v, &rd, HANG);
            if is_crash(c, s) {
                Some(format!("process crashed: exit code {:?}, signal {:?}", c, s))
            } else if c == Some(10) {
                Some(out)
            } else {
                None
            }
        };
        let mut ok = false;
        for _ in 0..if suite.deterministic { 2 } else { 10 } {
            if crash(&choices).is_some() {
                ok = true;
                break;
            }
        }
        if !ok {
            println!("suite {}: worker crashed at case {}, which does not crash when run alone", suite.name, idx);
        }
        let (best, evals) = if ok {
            shrink(choices.clone(), vec![], Duration::from_secs(60), |c| crash(c).map(|m| (c.to_vec(), vec![], m)))
        } else {
            (choices.clone(), 0)
        };
        let msg = crash(&best).unwrap_or_else(|| format!("process crashed: {}", how));
        let text = replay_text(prop, suite, seed, idx, &best, &choices, &msg, None, evals);
        let p = rdir.join(format!("{}-{}-{:016x}.json", prop.id, suite.name, hash_bytes(1, text.as_bytes())));
        let _ = std::fs::write(&p, &text);
        println!("suite {}: {}", suite.name, msg);
        return SuiteEnd::Violation(p.display().to_string());
    }
    result
}

/// Choices are recorded only in the process that draws them; a crashing case is described by a long
/// prefix of the raw generator output, which `Gen::replay` maps to the same choices.
fn recorded_choices(prop: &Prop, suite: &Suite, seed: u64, idx: u64, tier: &str, bin: &Path, dir: &Path) -> Vec<u64> {
    let f = dir.join("rec.txt");
    let _ = std::fs::remove_file(&f);
    let args: Vec<String> = vec![
        "worker".into(), "--prop".into(), prop.id.into(), "--suite".into(), suite.name.into(), "--seed".into(), seed.to_string(),
        "--start".into(), idx.to_string(), "--stride".into(), "1".into(), "--end".into(), (idx + 1).to_string(), "--tier".into(), tier.into(),
        "--scratch".into(), dir.join("rec").display().to_string(), "--out".into(), dir.join("rec.out").display().to_string(),
        "--cur".into(), dir.join("rec.cur").display().to_string(),
    ];
    let mut c = match Command::new(bin).args(&args).env("VERIF_RECORD", &f).env("RAYON_NUM_THREADS", "3")
        .env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:allocator_may_return_null=1")
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return vec![],
    };
    let t0 = Instant::now();
    while t0.elapsed() < HANG {
        if let Ok(Some(_)) = c.try_wait() {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let _ = c.kill();
    let _ = c.wait();
    let b = std::fs::read(&f).unwrap_or_default();
    b.chunks_exact(8).map(|c| {
        let mut a = [0u8; 8];
        a.copy_from_slice(c);
        u64::from_le_bytes(a)
    }).collect()
}

fn known_findings() -> Vec<(String, String, String)> {
    // lines: KNOWN <property> <signature> <text>
    let p = verif_root().join("known_findings.txt");
    let t = std::fs::read_to_string(p).unwrap_or_default();
    t.lines().filter_map(|l| {
        let mut it = l.splitn(4, ' ');
        if it.next()? != "KNOWN" {
            return None;
        }
        Some((it.next()?.to_string(), it.next()?.to_string(), it.next().unwrap_or("").to_string()))
    }).collect()
}

fn check(args: &[String]) -> i32 {
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    let asan = args.get(3).map(PathBuf::from);
    let prop = match find(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let seed = seed_from_env();
    let t0 = Instant::now();
    let limit = if tier == "quick" { Duration::from_secs(780) } else { Duration::from_secs(4 * 3600) };
    let deadline = t0 + limit;
    let scratch = Scratch(scratch_base());
    let me = std::env::current_exe().unwrap();
    let mut st = Stats::default();
    let mut per_suite: Vec<String> = vec![];
    let mut end = SuiteEnd::Ok;
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for suite in &prop.suites {
        let n = if tier == "quick" { suite.quick } else { suite.thorough };
        let n = ((n as f64) * scale).ceil() as u64;
        let ts = Instant::now();
        let before = (st.evaluations, st.nontrivial);
        end = run_suite(&prop, suite, n, seed, &tier, &me, "n", &scratch.0, &mut st, deadline);
        per_suite.push(format!("{}: {} evaluated, {} non-trivial, {:.1}s", suite.name, st.evaluations - before.0, st.nontrivial - before.1, ts.elapsed().as_secs_f64()));
        if !matches!(end, SuiteEnd::Ok) {
            break;
        }
        if let (Some(a), true) = (&asan, suite.asan > 0) {
            let n = if tier == "quick" { suite.asan } else { suite.asan * 20 };
            let n = ((n as f64) * scale).ceil() as u64;
            let ts = Instant::now();
            let mut st2 = Stats::default();
            end = run_suite(&prop, suite, n, seed ^ 0xA5A, &tier, a, "asan", &scratch.0, &mut st2, deadline);
            per_suite.push(format!("{} under AddressSanitizer: {} evaluated, {} non-trivial, {:.1}s", suite.name, st2.evaluations, st2.nontrivial, ts.elapsed().as_secs_f64()));
            st.evaluations += st2.evaluations;
            st.nontrivial += st2.nontrivial;
            st.discards += st2.discards;
            for h in st2.distinct {
                st.distinct.insert(h);
            }
            if !matches!(end, SuiteEnd::Ok) {
                break;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let violations: Vec<String> = match &end {
        SuiteEnd::Violation(p) => vec![p.clone()],
        _ => vec![],
    };
    write_evidence(&prop, &tier, seed, &st, &per_suite, wall, &violations);
    for (p, sig, text) in known_findings() {
        if p == prop.id {
            println!("KNOWN-FINDING: property={} {} {}", p, sig, text);
        }
    }
    let mut labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    labels.truncate(60);
    println!("{} {} seed={} evaluated={} nontrivial={} distinct={} discarded={} wall={:.1}s", prop.id, tier, seed, st.evaluations, st.nontrivial, st.distinct.len(), st.discards, wall);
    for s in &per_suite {
        println!("  {}", s);
    }
    println!("  labels: {}", labels.join(" "));
    println!("  counters: {}", st.counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
    match end {
        SuiteEnd::Ok => {
            if st.distinct.len() < 10 && scale >= 1.0 {
                eprintln!("error: fewer than 10 distinct non-trivial cases");
                return 2;
            }
            0
        }
        SuiteEnd::Violation(p) => {
            println!("VIOLATION property={} replay={}", prop.id, p);
            1
        }
        SuiteEnd::Error(e) => {
            eprintln!("error: {}", e);
            2
        }
    }
}

fn write_evidence(prop: &Prop, tier: &str, seed: u64, st: &Stats, per_suite: &[String], wall: f64, violations: &[String]) {
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples: Vec<String> = vec![];
    let step = (st.samples.len() / 8).max(1);
    for s in st.samples.iter().step_by(step).take(8) {
        let mut s = s.clone();
        if s.len() > 1500 {
            let mut cut = 1500;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s.truncate(cut);
            s.push_str(" ...");
        }
        samples.push(s);
    }
    let map = |m: &std::collections::BTreeMap<String, u64>| -> String {
        m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")
    };
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {},\n  \"discarded\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"suites\": [{}],\n  \"labels\": {{{}}},\n  \"counters\": {{{}}},\n  \"excluded_by_known_findings\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"violations\": [{}],\n \"wall_s\": {:.3}\n}}\n",
        esc(prop.id), esc(tier), seed, esc(prop.level), st.evaluations, st.distinct.len(), st.nontrivial, st.discards, esc(prop.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        per_suite.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        map(&st.labels), map(&st.counters), map(&st.excluded),
        prop.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        violations.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        wall
    );
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id)), text);
}

fn replay(args: &[String]) -> i32 {
    let f = args.get(1).cloned().unwrap_or_default();
    let text = match std::fs::read_to_string(&f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let id = crate::json::str_field(&text, "property").unwrap_or_default();
    let suite = crate::json::str_field(&text, "suite").unwrap_or_default();
    let ch = crate::json::num_array(&text, "choices").unwrap_or_default();
    let scratch = Scratch(scratch_base());
    let me = std::env::current_exe().unwrap();
    let (c, s, out) = run_choices(&me, &id, &suite, "quick", &ch, &scratch.0, HANG);
    print!("{}", out);
    if c == Some(10) || is_crash(c, s) {
        println!("VIOLATION property={} replay={}", id, f);
        1
    } else if c == Some(0) {
        println!("the case passes");
        0
    } else {
        2
    }
}
