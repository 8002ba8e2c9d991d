//! Commands for developing the simulator.
use crate::props::{self, Cx};
use model::json::{self, s, J};
use model::rng::{self, Rng};
use model::{doc, layout};

pub fn main(a: &[String]) -> i32 {
    let num = |i: usize| -> u64 { a[i].parse().unwrap() };
    match a[1].as_str() {
        "gen" => {
            // documents as JSON lines, for validation against another implementation
            for i in 0..num(2) {
                let mut r = Rng::new(rng::run_seed(num(3), "gen", i));
                let module = r.chance(1, 3);
                let m = doc::mask(&mut r);
                let k = 1 + r.below(4) as usize;
                let l = layout::Lay::draw(&mut r, !module);
                let (spec, d) = doc::draw(&mut r, module, m, k, l);
                let b = doc::build(&spec);
                assert_eq!(b.text(), d.text());
                let mut o = J::obj();
                o.set("i", json::n(i));
                o.set("module", J::Bool(module));
                o.set("text", s(d.text()));
                println!("{}", o.dump());
            }
        }
        "traffic" => {
            let n = a[5].parse::<usize>().unwrap();
            let t = format!("{}{}{}", a[2], a[3].repeat(n), a[4]);
            crate::sim::begin(u64::MAX, vec![]);
            crate::sim::traffic();
            crate::sim::track_peak();
            let mut w = crate::drive::Watch::new(&t, crate::drive::cfg(false, true, 0));
            while w.pull() {}
            println!("{} bytes of text, {} steps, {} bytes of traffic", t.len(), crate::sim::st().tok, crate::sim::traffic());
            return 0;
        }
        "cmp" => {
            let (mut bad, mut tot) = (0, 0);
            for i in 0..num(2) {
                let mut r = Rng::new(rng::run_seed(num(3), "cmp", i));
                let module = r.chance(1, 3);
                let m = if a.len() > 4 { a[4].parse().unwrap() } else { doc::mask(&mut r) };
                let l = if a.len() > 5 { layout::PLAIN } else { layout::Lay::draw(&mut r, !module) };
                let (_, d) = doc::draw(&mut r, module, m, 1 + (i % 3) as usize, l);
                tot += 1;
                let t = d.text();
                crate::sim::begin(u64::MAX, vec![]);
                let e = crate::drive::observe(t, crate::drive::cfg(module, false, 0), 100);
                let w: Vec<_> = d.items.iter().map(|i| &i.ast).collect();
                let ok = crate::drive::items(&e) == w && matches!(e.last(), Some(crate::drive::Ev::End)) && e.len() == w.len() + 1;
                if !ok {
                    bad += 1;
                    if t.len() < 120 || bad < 3 {
                        println!("--- {} module={}\n{}\n  got  {}\n  want {:?}", i, module, t.escape_debug(), crate::drive::show(&e), w);
                    }
                }
            }
            println!("{}/{} differ", bad, tot);
        }
        "p" => {
            for t in &a[2..] {
                let (module, t) = match t.strip_prefix("M:") {
                    Some(t) => (true, t),
                    None => (false, &t[..]),
                };
                let t = t.replace("\\n", "\n").replace("\\r", "\r");
                for tol in [false, true] {
                    crate::sim::begin(u64::MAX, vec![]);
                    let e = crate::drive::observe(&t, crate::drive::cfg(module, tol, 1), 50);
                    println!("{:?} tolerant={}\n      {}", t, tol, crate::drive::show(&e));
                }
            }
        }
        "one" => {
            crate::findings::install();
            let sc = props::draw(&a[2], rng::run_seed(num(3), &a[2], num(4)));
            let mut cx = Cx { describe: true, ..Default::default() };
            let r = props::run(&sc, &mut cx);
            for (k, t) in &cx.texts {
                println!("{}: {:?}", k, t);
            }
            println!("{}\nfaults {:?}\nprobes {:?}\nnontrivial {} trace {:x}", sc.to_json().dump(), cx.faults, cx.probes, cx.nontrivial, cx.trace);
            match r {
                Ok(()) => println!("held"),
                Err(v) => println!("VIOLATED {}: {}", v.class, v.detail),
            }
        }
        "survey" => {
            // every violation class with its smallest example, without stopping
            crate::findings::install();
            let mut classes: std::collections::BTreeMap<String, (u64, usize, String)> = Default::default();
            let t0 = std::time::Instant::now();
            let (mut nt, mut faults, mut probes) = (0u64, std::collections::BTreeMap::<String, u64>::new(), std::collections::BTreeMap::<String, u64>::new());
            for i in 0..num(4) {
                let sc = props::draw(&a[2], rng::run_seed(num(3), &a[2], i));
                let mut cx = Cx { describe: true, ..Default::default() };
                let r = props::run(&sc, &mut cx);
                nt += cx.nontrivial as u64;
                for (k, v) in cx.faults {
                    *faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in cx.probes {
                    *probes.entry(k).or_insert(0) += v;
                }
                if let Err(v) = r {
                    let len: usize = cx.texts.first().map(|t| t.1.len()).unwrap_or(0);
                    let mut cls = v.class.clone();
                    if let Some(i) = v.detail.find("panic at ") {
                        cls += &v.detail[i..].split(": ").next().unwrap_or("").to_string();
                    }
                    if v.class.contains("tokenizer-panic") {
                        cls += &v.detail.split(' ').next().unwrap_or("").to_string();
                    }
                    let e = classes.entry(cls).or_insert((0, usize::MAX, String::new()));
                    e.0 += 1;
                    if len < e.1 {
                        e.1 = len;
                        e.2 = format!("index {}\n   {}\n   {}", i, cx.texts.iter().map(|(k, t)| format!("{}: {:?}", k, t)).collect::<Vec<_>>().join("\n   "), v.detail);
                    }
                }
            }
            println!("{} runs, {} nontrivial, {:.1} s\nfaults {:?}\nprobes {:?}", num(4), nt, t0.elapsed().as_secs_f64(), faults, probes);
            for (k, (n, _, ex)) in &classes {
                println!("=== {} × {}\n   {}", k, n, ex);
            }
        }
        _ => return 2,
    }
    0
}
