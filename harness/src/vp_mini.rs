//! `mini run SEED WORKER WORKERS SECONDS ID...`, `mini replay FILE`: cases of properties one after
//! another, without the interposition and the threads of `vp`, so that Miri can interpret them as
//! another machine would run them. Lines for `vp cross` start with "@@ ".

use std::time::{Duration, Instant};
use vp_harness::{props, vp_engine as eng, vp_env};

fn list(c: &[u64]) -> String {
    let v: Vec<String> = c.iter().map(|x| x.to_string()).collect();
    v.join(",")
}

fn property(id: &str) -> eng::Property {
    props::find(id).expect("vp_ property")
}

fn run(a: &[String]) {
    let n: Vec<u64> = a[..4].iter().map(|x| x.parse().expect("vp_ number")).collect();
    let (seed, worker, workers, limit) = (n[0], n[1], n[2], Duration::from_secs(n[3]));
    let ps: Vec<eng::Property> = a[4..].iter().map(|id| property(id)).collect();
    let start = Instant::now();
    let mut spent = vec![Duration::ZERO; ps.len()];
    let mut round = vec![0; ps.len()];
    while start.elapsed() < limit {
        // the property that has had the least time; processes begin with different ones
        let first = |k: &usize| (spent[*k], (*k + worker as usize * 5) % ps.len());
        let k = (0..ps.len()).min_by_key(first).expect("vp_ no property");
        let p = &ps[k];
        let mut order = round[k] * workers + worker;
        round[k] += 1;
        // enumerations made for a processor, not for an interpreter
        let en = p.enum_count > 0 && order % 4 == 3 && p.id != "C07";
        if en {
            order = eng::Rng::new(order ^ seed << 32).next() % p.enum_count;
        }
        println!("@@ case {} {} {}", p.id, u8::from(en), order);
        let t = Instant::now();
        let r = eng::run_alone(p, seed, order, en, None);
        spent[k] += t.elapsed();
        match r.failure {
            None => println!("@@ pass {} {}", u8::from(r.nontrivial), t.elapsed().as_millis()),
            Some(m) => {
                println!("@@ fail {}", m.replace('\n', "\\n"));
                println!("@@ choices {}", list(&r.choices));
                if !en {
                    let (c, m) = eng::smaller(p, r.choices, m);
                    println!("@@ fail {}", m.replace('\n', "\\n"));
                    println!("@@ choices {}", list(&c));
                    for n in eng::run_alone(p, seed, order, en, Some(&c)).notes {
                        println!("@@ note {}", n.replace('\n', "\\n"));
                    }
                }
                break;
            }
        }
    }
    println!("@@ end");
}

/// Exit code 1 if the stored case fails again
fn replay(path: &str) -> i32 {
    let r = match eng::read_replay(path) {
        Ok(r) => r,
        Err(e) => panic!("vp_ {e}"),
    };
    // platform TARGET ID ENUMERATED ORDER, with choices if the case was shrunk
    let k: Vec<&str> = r.kind.split(' ').collect();
    let p = property(k[2]);
    let (en, order) = (k[3] == "1", k[4].parse().expect("vp_ number"));
    let again = (!en && !r.choices.is_empty()).then_some(&r.choices[..]);
    let ran = eng::run_alone(&p, r.seed, order, en, again);
    for n in ran.notes {
        println!("  {n}");
    }
    match ran.failure {
        None => {
            println!("{}: passes", r.property);
            0
        }
        Some(m) => {
            println!("{}: {} on {}: {m}", r.property, k[2], k[1]);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    eng::install_panic_hook();
    vp_env::init();
    if a[0] == "replay" || a[2] == "0" || a.iter().any(|x| x == "C33") {
        eng::install_log();
    }
    if a[0] == "replay" {
        std::process::exit(replay(&a[1]));
    }
    run(&a[1..]);
}
