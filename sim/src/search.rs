//! The seeded search: worker processes, what they report, minimising, replaying, evidence.
use crate::props::{self, Cx};
use crate::scn::{self, Scn};
use model::json::{self, s, J};
use model::rng;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// a run that reports nothing for so long is taken to hang (and tried again alone)
const STUCK: Duration = Duration::from_secs(10);

// ---------------------------------------------------------------- shared words
struct Shared {
    p: *mut AtomicU64,
}
impl Shared {
    fn open(path: &Path) -> Shared {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared words");
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut AtomicU64 }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < 512);
        unsafe { &*self.p.add(i) }
    }
    /// runs beyond this index are not needed: a smaller one failed
    fn stop(&self) -> &AtomicU64 {
        self.at(0)
    }
    fn slot(&self, w: u64) -> &AtomicU64 {
        self.at(8 + w as usize)
    }
}

// ---------------------------------------------------------------- the worker
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}
fn tell(m: &BTreeMap<String, u64>) -> J {
    let mut o = J::obj();
    for (k, v) in m {
        o.set(k, json::n(*v));
    }
    o
}
fn hex(x: u64) -> J {
    s(&format!("{:016x}", x))
}
fn unhex(j: &J) -> u64 {
    u64::from_str_radix(j.st(), 16).unwrap_or(0)
}
fn dump_words(path: &Path, v: &[u64]) {
    let mut b = Vec::with_capacity(v.len() * 8);
    for x in v {
        b.extend_from_slice(&x.to_le_bytes());
    }
    let _ = std::fs::write(path, b);
}
fn load_words(path: &Path) -> Vec<u64> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn drawn_shape(sc: &Scn) -> u64 {
    let mut h = 1u64;
    for (k, v) in &sc.nums {
        h = rng::mix(h ^ rng::hash_str(k) ^ if v.unsigned_abs() > 100_000 { 100_000 } else { *v as u64 });
    }
    for (k, l) in &sc.lists {
        h = rng::mix(h ^ rng::hash_str(k));
        for r in l {
            for x in r {
                h = rng::mix(h ^ *x as u64);
            }
        }
    }
    h
}
/// worker PROP SEED FROM STRIDE COUNT SECONDS DIR SLOT GENERATION
pub fn worker(a: &[String]) -> i32 {
    limit_memory();
    crate::findings::install();
    let num = |i: usize| -> u64 { a[i].parse().unwrap() };
    let (prop, seed, from, stride, count) = (&a[0], num(1), num(2), num(3), num(4));
    let deadline = Instant::now() + Duration::from_secs(num(5));
    let dir = PathBuf::from(&a[6]);
    let sh = Shared::open(&dir.join("words"));
    let slot = sh.slot(num(7));
    let (mut runs, mut nontrivial, mut steps, mut toksteps) = (0u64, 0u64, 0u64, 0u64);
    let mut faults = BTreeMap::<String, u64>::new();
    let mut probes = BTreeMap::<String, u64>::new();
    let mut known = BTreeMap::<String, u64>::new();
    let (mut sigs, mut inters) = (vec![], vec![]);
    let mut traces = J::obj();
    let mut viol = J::Null;
    let mut i = from;
    let mut last = from;
    while i < count {
        if i > sh.stop().load(SeqCst) || Instant::now() > deadline {
            break;
        }
        slot.store(i + 1, SeqCst);
        let sc = props::draw(prop, rng::run_seed(seed, prop, i));
        let mut cx = Cx::default();
        let r = props::run(&sc, &mut cx);
        runs += 1;
        last = i;
        steps += cx.steps;
        toksteps += cx.toksteps;
        for (k, v) in cx.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in cx.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        for k in cx.known {
            *known.entry(k).or_insert(0) += 1;
        }
        // without a real interleaving, what was drawn besides the texts
        let inter = if cx.inter != 0 { cx.inter } else { drawn_shape(&sc) };
        inters.push(inter);
        if cx.nontrivial {
            nontrivial += 1;
            sigs.push(rng::mix(cx.sig ^ inter));
        }
        if i < 64 {
            traces.set(&i.to_string(), hex(cx.trace));
        }
        if let Err(v) = r {
            sh.stop().fetch_min(i, SeqCst);
            viol = J::obj();
            viol.set("index", json::n(i));
            viol.set("class", s(&v.class));
            viol.set("detail", s(&v.detail));
            break;
        }
        i += stride;
    }
    slot.store(u64::MAX, SeqCst);
    let mut o = J::obj();
    o.set("runs", json::n(runs));
    o.set("last", json::n(last));
    o.set("nontrivial", json::n(nontrivial));
    o.set("steps", json::n(steps));
    o.set("toksteps", json::n(toksteps));
    o.set("faults", tell(&faults));
    o.set("probes", tell(&probes));
    o.set("known", tell(&known));
    o.set("traces", traces);
    o.set("violation", viol);
    let base = format!("w{}-{}", a[7], a[8]);
    sigs.sort_unstable();
    sigs.dedup();
    inters.sort_unstable();
    inters.dedup();
    dump_words(&dir.join(base.clone() + ".sig"), &sigs);
    dump_words(&dir.join(base.clone() + ".inter"), &inters);
    std::fs::write(dir.join(base + ".json"), o.dump()).unwrap();
    0
}

// ---------------------------------------------------------------- one run
fn warm_up(j: &J) {
    if j.get("warm").get("stride").u() > 0 {
        let w = j.get("warm");
        let prop = j.get("prop").st();
        let mut i = w.get("from").u();
        while i < w.get("to").u() {
            let sc = props::draw(prop, rng::run_seed(w.get("seed").u(), prop, i));
            let _ = props::run(&sc, &mut Cx::default());
            i += w.get("stride").u();
        }
    }
}
fn read(path: &str) -> J {
    json::parse(&std::fs::read_to_string(path).unwrap_or_default()).unwrap_or(J::Null)
}
/// once FILE: run the scenario of the file, print what came of it as one line of JSON
pub fn once(path: &str) -> i32 {
    limit_memory();
    crate::findings::install();
    let j = read(path);
    warm_up(&j);
    let sc = Scn::from_json(j.get("scenario"));
    let mut cx = Cx { describe: true, ..Default::default() };
    let r = props::run(&sc, &mut cx);
    let mut o = J::obj();
    match r {
        Ok(()) => o.set("class", s("")),
        Err(v) => {
            o.set("class", s(&v.class));
            o.set("detail", s(&v.detail));
        }
    }
    o.set("trace", hex(cx.trace));
    o.set("nontrivial", J::Bool(cx.nontrivial));
    o.set("faults", tell(&cx.faults));
    let mut t = J::obj();
    for (i, (k, v)) in cx.texts.iter().enumerate() {
        t.set(&format!("{} {}", i, k), s(v));
    }
    o.set("texts", t);
    println!("{}", o.dump());
    0
}
struct Outcome {
    class: String,
    detail: String,
    j: J,
}
fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}
fn wait(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            return Some(st);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
/// run `once` in a process of its own
fn alone(file: &Path, limit: Duration) -> Outcome {
    let out = file.with_extension("out.tmp");
    let f = std::fs::File::create(&out).unwrap();
    let mut c = Command::new(exe()).arg("once").arg(file).stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn().expect("child");
    let st = wait(&mut c, limit);
    let t = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let j = json::parse(t.trim()).unwrap_or(J::Null);
    match st {
        None => Outcome { class: "hang".into(), detail: format!("no end within {} s, alone in a process", limit.as_secs()), j },
        Some(st) if st.code() == Some(0) && j != J::Null => Outcome { class: j.get("class").st().into(), detail: j.get("detail").st().into(), j },
        Some(st) => Outcome { class: "crash".into(), detail: format!("the process ended with {}", st), j },
    }
}
fn with_scenario(prop: &str, sc: &Scn, warm: &J) -> J {
    let mut o = J::obj();
    o.set("prop", s(prop));
    o.set("scenario", sc.to_json());
    o.set("warm", warm.clone());
    o
}
/// shrink FILE SECONDS: make the scenario of the file smaller, leaving the best so far in FILE.min
pub fn shrink(a: &[String]) -> i32 {
    limit_memory();
    crate::findings::install();
    let j = read(&a[0]);
    let class = j.get("class").st().to_string();
    let out = format!("{}.min", a[0]);
    let deadline = Instant::now() + Duration::from_secs(a[1].parse().unwrap());
    let sc = Scn::from_json(j.get("scenario"));
    let prop = sc.prop.clone();
    let keep = |c: &Scn| {
        let t = format!("{}.part", out);
        let _ = std::fs::write(&t, with_scenario(&prop, c, &J::Null).dump());
        let _ = std::fs::rename(&t, &out);
    };
    let (best, tries) = scn::shrink(
        &sc,
        &mut |c| {
            let bad = matches!(props::run(c, &mut Cx::default()), Err(v) if v.class == class);
            if bad {
                keep(c);
            }
            bad
        },
        deadline,
    );
    keep(&best);
    println!("{}", tries);
    0
}
/// The same, one process for every attempt: for crashes, hangs and what needs a history.
fn shrink_outside(dir: &Path, prop: &str, sc: &Scn, class: &str, warm: &J, limit: Duration, secs: u64) -> (Scn, u64) {
    let f = dir.join("attempt.json");
    scn::shrink(
        sc,
        &mut |c| {
            let _ = std::fs::write(&f, with_scenario(prop, c, warm).dump());
            alone(&f, limit).class == class
        },
        Instant::now() + Duration::from_secs(secs),
    )
}

// ---------------------------------------------------------------- replay
pub fn replay(path: &str) -> i32 {
    steady();
    let j = read(path);
    if *j.get("prop") == J::Null {
        eprintln!("{}: not a replay file", path);
        return 2;
    }
    let o = alone(Path::new(path), Duration::from_secs(120));
    println!("property  {}\nrecorded  {}: {}", j.get("prop").st(), j.get("class").st(), j.get("detail").st());
    if let J::Obj(t) = o.j.get("texts") {
        for (k, v) in t {
            println!("text {}: {:?}", k, v.st());
        }
    }
    println!("replayed  {}: {}", if o.class.is_empty() { "held" } else { &o.class }, o.detail);
    println!("trace     {} (recorded {})", o.j.get("trace").st(), j.get("trace").st());
    if o.class == j.get("class").st() {
        println!("VIOLATION property={} replay={}", j.get("prop").st(), path);
        1
    } else {
        println!("not reproduced");
        0
    }
}

// ---------------------------------------------------------------- the search
/// addresses are a source of nondeterminism as well
fn steady() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 {
            libc::personality((p as libc::c_ulong) | 0x0040000);
        }
    }
}
struct Plan {
    quick: u64,
}
/// run counts of the quick tier
fn plan(prop: &str) -> Plan {
    let quick = match prop {
        "C01" => 200_000,
        "C02" => 90_000,
        "C03" => 200_000,
        "C04" => 400_000,
        "C05" => 700_000,
        "C06" => 400_000,
        "C07" => 360_000,
        "C08" => 300_000,
        "C09" => 450_000,
        "C10" => 500_000,
        "C11" => 50_000,
        "C12" => 150_000,
        "C13" => 90_000,
        "C14" => 150_000,
        "C15" => 500_000,
        "C16" => 400_000,
        _ => 50_000,
    };
    Plan { quick }
}
struct W {
    child: Child,
    slot: u64,
    gen: u64,
    from: u64,
    seen: (u64, Instant),
    done: bool,
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn spawn(prop: &str, seed: u64, from: u64, count: u64, secs: u64, dir: &Path, slot: u64, gen: u64) -> W {
    let args: Vec<String> = vec![
        "worker".into(),
        prop.into(),
        seed.to_string(),
        from.to_string(),
        WORKERS.to_string(),
        count.to_string(),
        secs.to_string(),
        dir.display().to_string(),
        slot.to_string(),
        gen.to_string(),
    ];
    let child = Command::new(exe()).args(&args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("worker");
    W { child, slot, gen, from, seen: (0, Instant::now()), done: false }
}
struct Found {
    index: u64,
    class: String,
    detail: String,
    from: u64,
}
pub fn check(a: &[String]) -> i32 {
    steady();
    let t0 = Instant::now();
    let prop = match a.first() {
        Some(p) if crate::about::NAMES.iter().any(|n| n.0 == *p) => p.clone(),
        _ => {
            eprintln!("check: no such property");
            return 2;
        }
    };
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let mut count = None;
    let mut secs = None;
    let mut i = 1;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--tier" => tier = a[i + 1].clone(),
            "--seed" => seed = a[i + 1].parse().unwrap(),
            "--runs" => count = Some(a[i + 1].parse::<u64>().unwrap()),
            "--seconds" => secs = Some(a[i + 1].parse::<u64>().unwrap()),
            x => {
                eprintln!("check: {}?", x);
                return 2;
            }
        }
        i += 2;
    }
    if tier != "thorough" {
        tier = "quick".into();
    }
    let count = count.unwrap_or(if tier == "quick" { plan(&prop).quick } else { u64::MAX >> 8 });
    let secs = secs.unwrap_or(if tier == "quick" { 120 } else { 600 });
    let dir = Dir(std::env::temp_dir().join(format!("ressa-sim-{}-{}", prop, std::process::id())));
    std::fs::create_dir_all(&dir.0).expect("scratch folder");
    let d = &dir.0;
    let sh = Shared::open(&d.join("words"));
    sh.stop().store(u64::MAX, SeqCst);
    crate::findings::install();
    for what in crate::findings::reproduce(&prop) {
        println!("KNOWN-FINDING: property={} {}", prop, what);
    }

    let mut ws: Vec<W> = (0..WORKERS).map(|w| spawn(&prop, seed, w, count, secs, d, w, 0)).collect();
    let mut found: Vec<Found> = vec![];
    let mut results: Vec<J> = vec![];
    let (mut sigs, mut inters) = (vec![], vec![]);
    let mut lost = 0u64;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(10));
        for k in 0..ws.len() {
            if ws[k].done {
                continue;
            }
            let at = sh.slot(ws[k].slot).load(SeqCst);
            let base = format!("w{}-{}", ws[k].slot, ws[k].gen);
            let mut broken = None;
            match ws[k].child.try_wait() {
                Ok(Some(st)) => {
                    let j = read(&d.join(base.clone() + ".json").display().to_string());
                    if st.code() == Some(0) && j != J::Null {
                        ws[k].done = true;
                        sigs.extend(load_words(&d.join(base.clone() + ".sig")));
                        inters.extend(load_words(&d.join(base.clone() + ".inter")));
                        let v = j.get("violation");
                        if *v != J::Null {
                            found.push(Found { index: v.get("index").u(), class: v.get("class").st().into(), detail: v.get("detail").st().into(), from: ws[k].from });
                        }
                        results.push(j);
                    } else {
                        broken = Some(("crash", format!("a worker ended with {}", st)));
                    }
                }
                _ => {
                    if at != ws[k].seen.0 {
                        ws[k].seen = (at, Instant::now());
                    } else if ws[k].seen.1.elapsed() > (if found.is_empty() { STUCK } else { STUCK / 5 }) && at != u64::MAX && at > 0 {
                        let _ = ws[k].child.kill();
                        let _ = ws[k].child.wait();
                        broken = Some(("hang", format!("no end within {} s", STUCK.as_secs())));
                    } else if ws[k].seen.1.elapsed() > STUCK * 4 {
                        let _ = ws[k].child.kill();
                        let _ = ws[k].child.wait();
                        eprintln!("a worker got nowhere");
                        return 2;
                    }
                }
            }
            if let Some((class, detail)) = broken {
                lost += 1;
                if at == 0 || at == u64::MAX || lost > 40 {
                    eprintln!("worker {} failed outside a run: {} {}", k, class, detail);
                    return 2;
                }
                let index = at - 1;
                if !found.is_empty() {
                    // one is enough
                    ws[k].done = true;
                    continue;
                }
                let f = d.join("suspect.json");
                let sc = props::draw(&prop, rng::run_seed(seed, &prop, index));
                let _ = std::fs::write(&f, with_scenario(&prop, &sc, &J::Null).dump());
                let o = alone(&f, Duration::from_secs(20));
                if !o.class.is_empty() {
                    sh.stop().fetch_min(index, SeqCst);
                    found.push(Found { index, class: o.class, detail: o.detail, from: ws[k].from });
                    ws[k].done = true;
                } else if class == "crash" {
                    // only after what that worker ran before
                    sh.stop().fetch_min(index, SeqCst);
                    found.push(Found { index, class: class.into(), detail, from: ws[k].from });
                    ws[k].done = true;
                } else {
                    sh.slot(k as u64).store(0, SeqCst);
                    ws[k] = spawn(&prop, seed, index + WORKERS, count, secs.saturating_sub(t0.elapsed().as_secs()), d, k as u64, lost);
                }
            }
        }
    }
    let searched = t0.elapsed().as_secs_f64();

    // the same indices once more, in another process and in another order
    let mut det = (0u64, 0u64);
    if found.is_empty() {
        let mut want: BTreeMap<u64, u64> = BTreeMap::new();
        for r in &results {
            if let J::Obj(o) = r.get("traces") {
                for (k, v) in o {
                    want.insert(k.parse().unwrap(), unhex(v));
                }
            }
        }
        let out = d.join("traces.txt");
        if let Ok(f) = std::fs::File::create(&out) {
            if let Ok(mut c) = Command::new(exe()).args(["traces", &prop, &seed.to_string(), &want.len().to_string()]).stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn() {
                wait(&mut c, Duration::from_secs(60));
            }
        }
        for l in std::fs::read_to_string(&out).unwrap_or_default().lines() {
            if let Some((i, t)) = l.split_once(' ') {
                if let (Ok(i), Ok(t)) = (i.parse::<u64>(), u64::from_str_radix(t, 16)) {
                    if let Some(w) = want.get(&i) {
                        det.0 += 1;
                        if *w != t {
                            det.1 += 1;
                            eprintln!("run {} is not the same twice", i);
                        }
                    }
                }
            }
        }
    }

    found.sort_by_key(|f| f.index);
    let mut replay_path = None;
    if let Some(f) = found.first() {
        let p = report(&prop, seed, f, d);
        println!("VIOLATION property={} replay={}", prop, p.display());
        replay_path = Some(p);
    }
    sigs.sort_unstable();
    sigs.dedup();
    inters.sort_unstable();
    inters.dedup();
    let ev = Evidence { prop: &prop, tier: &tier, seed, results: &results, sigs: sigs.len() as u64, inters: inters.len() as u64, searched, det, found: found.len() as u64 };
    ev.write(t0.elapsed().as_secs_f64());
    let runs: u64 = results.iter().map(|r| r.get("runs").u()).sum();
    println!("{} {}: {} runs, {} distinct, {:.1} s, seed {}{}", prop, tier, runs, sigs.len(), searched, seed, if replay_path.is_some() { "" } else { ": held" });
    if replay_path.is_some() {
        1
    } else {
        0
    }
}
/// traces PROP SEED N: trace hashes of the first N runs, last first
pub fn traces(a: &[String]) -> i32 {
    limit_memory();
    crate::findings::install();
    let (seed, n): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    for i in (0..n).rev() {
        let sc = props::draw(&a[0], rng::run_seed(seed, &a[0], i));
        let mut cx = Cx::default();
        let _ = props::run(&sc, &mut cx);
        println!("{} {:016x}", i, cx.trace);
    }
    0
}

/// Confirm, minimise and write down a violation.
fn report(prop: &str, seed: u64, f: &Found, d: &Path) -> PathBuf {
    let sc = props::draw(prop, rng::run_seed(seed, prop, f.index));
    let file = d.join("found.json");
    let mut warm = J::Null;
    let mut class = f.class.clone();
    let mut detail = f.detail.clone();
    let limit = Duration::from_secs(if class == "hang" { 15 } else { 60 });
    let _ = std::fs::write(&file, with_scenario(prop, &sc, &warm).dump());
    let mut o = alone(&file, limit);
    let mut exact = true;
    if o.class != class {
        if !o.class.is_empty() {
            class = o.class.clone();
            detail = o.detail.clone();
        } else {
            // it takes what ran before it in the same process: find how much of that
            exact = false;
            let mut back = 1u64;
            loop {
                let from = f.index.saturating_sub(back * WORKERS).max(f.from);
                let from = f.index - (f.index - from) / WORKERS * WORKERS;
                let mut w = J::obj();
                w.set("seed", json::n(seed));
                w.set("from", json::n(from));
                w.set("to", json::n(f.index));
                w.set("stride", json::n(WORKERS));
                let _ = std::fs::write(&file, with_scenario(prop, &sc, &w).dump());
                let o2 = alone(&file, Duration::from_secs(120));
                if o2.class == class {
                    warm = w;
                    o = o2;
                    exact = true;
                    break;
                }
                if from <= f.from {
                    break;
                }
                back *= 4;
            }
        }
    }
    let mut best = sc.clone();
    let mut tries = 0u64;
    if exact {
        if class == "hang" || class == "crash" || warm != J::Null {
            let r = shrink_outside(d, prop, &sc, &class, &warm, Duration::from_secs(if class == "hang" { 3 } else { 30 }), 60);
            best = r.0;
            tries = r.1;
        } else {
            let mut j = with_scenario(prop, &sc, &warm);
            j.set("class", s(&class));
            let _ = std::fs::write(&file, j.dump());
            let out = d.join("tries.txt");
            let _ = std::fs::remove_file(format!("{}.min", file.display()));
            if let Ok(mut c) = Command::new(exe()).arg("shrink").arg(&file).arg("25").stdin(Stdio::null()).stdout(std::fs::File::create(&out).unwrap()).stderr(Stdio::null()).spawn() {
                wait(&mut c, Duration::from_secs(40));
            }
            tries = std::fs::read_to_string(&out).ok().and_then(|t| t.trim().parse().ok()).unwrap_or(0);
            let m = read(&format!("{}.min", file.display()));
            if m != J::Null {
                best = Scn::from_json(m.get("scenario"));
            }
        }
        // the small one must do the same in a process of its own
        let _ = std::fs::write(&file, with_scenario(prop, &best, &warm).dump());
        let o2 = alone(&file, limit);
        if o2.class == class {
            o = o2;
        } else {
            best = sc.clone();
        }
    }
    if !o.class.is_empty() {
        detail = o.detail.clone();
    }
    let mut j = with_scenario(prop, &best, &warm);
    j.set("class", s(&class));
    j.set("detail", s(&detail));
    j.set("seed", json::n(seed));
    j.set("index", json::n(f.index));
    j.set("trace", o.j.get("trace").clone());
    j.set("texts", o.j.get("texts").clone());
    j.set("faults", o.j.get("faults").clone());
    j.set("minimising_attempts", json::n(tries));
    j.set("reproduced_in_a_fresh_process", J::Bool(exact));
    j.set("drawn_scenario", sc.to_json());
    let dir = crate::findings::dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", prop, seed, f.index));
    let _ = std::fs::write(&p, j.dump());
    println!("run {} of seed {} breaks {}: {}", f.index, seed, prop, class);
    for l in detail.lines().take(12) {
        println!("  {}", l.chars().take(400).collect::<String>());
    }
    if let J::Obj(t) = o.j.get("texts") {
        for (k, v) in t.iter().take(6) {
            println!("  text {}: {:?}", k, v.st().chars().take(400).collect::<String>());
        }
    }
    p
}

// ---------------------------------------------------------------- evidence
struct Evidence<'a> {
    prop: &'a str,
    tier: &'a str,
    seed: u64,
    results: &'a [J],
    sigs: u64,
    inters: u64,
    searched: f64,
    det: (u64, u64),
    found: u64,
}
impl Evidence<'_> {
    fn sum(&self, k: &str) -> u64 {
        self.results.iter().map(|r| r.get(k).u()).sum()
    }
    fn merge(&self, k: &str) -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for r in self.results {
            if let J::Obj(o) = r.get(k) {
                for (k, v) in o {
                    *m.entry(k.clone()).or_insert(0) += v.u();
                }
            }
        }
        m
    }
    fn write(&self, wall: f64) {
        let about = &crate::about::NAMES.iter().find(|n| n.0 == self.prop).unwrap().1;
        let runs = self.sum("runs");
        let mut c = J::obj();
        c.set("evaluations", json::n(runs));
        c.set("distinct_nontrivial", json::n(self.sigs));
        c.set("rule", s(&format!("One evaluation is one simulated run, drawn whole from (seed, property, index). {} Runs are counted once per distinct hash of their texts, configuration, schedule and faults.", about.rule)));
        let mut samples = vec![];
        for i in [0u64, 1, 2] {
            let sc = props::draw(self.prop, rng::run_seed(self.seed, self.prop, i));
            if self.found > 0 {
                break;
            }
            let f = std::env::temp_dir().join(format!("ressa-sim-{}-{}", self.prop, std::process::id())).join("sample.json");
            let _ = std::fs::write(&f, with_scenario(self.prop, &sc, &J::Null).dump());
            let o = alone(&f, Duration::from_secs(30));
            let mut x = J::obj();
            x.set("index", json::n(i));
            x.set("texts", o.j.get("texts").clone());
            x.set("faults", o.j.get("faults").clone());
            let mut nums = J::obj();
            for (k, v) in &sc.nums {
                nums.set(k, J::Int(*v));
            }
            x.set("drawn_numbers", nums);
            let mut l = J::obj();
            for (k, v) in &sc.lists {
                l.set(k, J::Arr(v.iter().take(12).map(|r| J::Arr(r.iter().map(|y| J::Int(*y)).collect())).collect()));
            }
            x.set("drawn_schedule", l);
            x.set("trace", o.j.get("trace").clone());
            samples.push(x);
        }
        c.set("samples", J::Arr(samples));
        c.set("runs_per_hour", json::n((runs as f64 / self.searched.max(0.001) * 3600.0) as u64));
        c.set("seeds_per_hour", json::n((runs as f64 / self.searched.max(0.001) * 3600.0) as u64));
        c.set("nontrivial_runs", json::n(self.sum("nontrivial")));
        c.set("simulated_steps", json::n(self.sum("steps")));
        c.set("simulated_time", s("RESSA reads no clock and sets no timer; simulated time is counted in steps of the simulator (one per log call of the code under test), of which tokenizer_steps were tokens delivered"));
        c.set("tokenizer_steps", json::n(self.sum("toksteps")));
        c.set("faults_injected", tell(&self.merge("faults")));
        c.set("reached", tell(&self.merge("probes")));
        c.set("known_findings_met", tell(&self.merge("known")));
        if self.inters > 0 {
            c.set("distinct_interleavings", json::n(self.inters));
            c.set("interleaving_measure", s(about.inter));
        }
        c.set("runs_repeated_in_another_process", json::n(self.det.0));
        c.set("repeats_that_differed", json::n(self.det.1));
        c.set("real_components", s("ressa (all of /repo/src), the ress tokenizer, resast, the log facade, the allocator below the counting layer"));
        c.set("stub_components", s(about.stub));
        let mut o = J::obj();
        o.set("property", s(self.prop));
        o.set("tier", s(self.tier));
        o.set("seed", json::n(self.seed));
        o.set("level", s("exploration"));
        o.set("coverage", c);
        o.set("assumptions", J::Arr(about.assume.iter().map(|x| s(x)).collect()));
        o.set("wall_s", J::Num((wall * 10.0).round() / 10.0));
        o.set("violations", json::n(self.found.min(1)));
        let dir = crate::findings::dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), o.dump() + "\n");
    }
}
