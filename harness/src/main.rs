//! Deterministic simulation of neure: one seed, one run. The driver is ../check.py.

mod ast;
mod build;
mod ctxs;
mod env;
mod extra;
mod forms;
mod hist;
mod logs;
mod look;
mod model;
mod run;
mod sched;
mod shrink;
mod single;
mod tape;
mod threads;
mod value;

use run::Rep;
use shrink::Prop;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::os::unix::fs::FileExt;
use std::time::Duration;
use tape::{Tape, hash_str, mix};

const PROPS: [(&str, Prop); 23] = [
    ("P01", single::p01),
    ("P02", single::p02),
    ("P03", single::p03),
    ("P04", single::p04),
    ("P05", single::p05),
    ("P06", single::p06),
    ("P07", single::p07),
    ("P08", single::p08),
    ("P09", single::p09),
    ("P10", hist::p10),
    ("P11", hist::p11),
    ("P12", single::p12),
    ("P13", single::p13),
    ("P14", single::p14),
    ("P15", single::p15),
    ("P16", single::p16),
    ("P17", single::p17),
    ("P18", threads::p18),
    ("P19", threads::p19),
    ("P20", threads::p20),
    ("P21", threads::p21),
    ("P22", single::p22),
    ("P24", look::p24),
];

/// P23 looks at the runs of all properties of one thread.
fn p23(t: &mut Tape, rep: &mut Rep) -> run::Res {
    let one: Vec<&(&str, Prop)> = PROPS.iter().filter(|p| !matches!(p.0, "P18" | "P19" | "P20" | "P21" | "P22")).collect();
    match t.draw(12) {
        10 => {
            // a sequence refuses to step back with a panic, in every build
            if let Err(e) = guarded(extra::step_back, t, rep) {
                rep.say(|| e);
            }
            return Ok(());
        }
        11 => return extra::counting(t, rep),
        _ => {}
    }
    let (id, f) = *t.pick(&one);
    rep.hit(format!("run of {id}"));
    rep.say(|| format!("run of {id}"));
    // what it says about the library is for its own check
    let r = guarded(*f, t, rep);
    if let Err(e) = r {
        rep.say(|| e);
    }
    Ok(())
}

/// A run of the property; a panic that got out of it is a violation of it, too.
pub fn guarded(f: Prop, t: &mut Tape, rep: &mut Rep) -> run::Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t, rep)));
    r.unwrap_or_else(|e| {
        env::swap(env::Env::new());
        Err(format!("panic outside of an operation: {}", run::last_panic(&*e)))
    })
}

fn prop(id: &str) -> Prop {
    if id == "P23" {
        return p23;
    }
    PROPS.iter().find(|p| p.0 == id).unwrap_or_else(|| panic!("no property {id}")).1
}

fn seed_of(id: &str, seed: u64, k: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(mix(k)))
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tape_json(t: &[u32]) -> String {
    let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn trim(t: &Tape) -> Vec<u32> {
    let mut d = t.data.clone();
    d.truncate(t.pos);
    while d.last() == Some(&0) {
        d.pop();
    }
    d
}

/// `work <id> <seed> <from> <to> <dir> <samples> <digest>`: a number of runs, one after the other.
fn work(a: &[String]) {
    let (id, f) = (a[0].as_str(), prop(&a[0]));
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, from, to, dir, samples) = (n(1), n(2), n(3), &a[4], n(5));
    let digest = id == "P23" || a[6] == "1";
    let status = std::fs::File::create(format!("{dir}/status")).expect("status");
    let mut cases = Vec::with_capacity(((to - from) * 8) as usize);
    let mut inters: Vec<u8> = vec![];
    let mut digests: Vec<u8> = vec![];
    let mut hits = BTreeMap::<String, u64>::new();
    let (mut runs, mut disc, mut foreign, mut steps, mut attempts) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut texts = vec![];
    let mut bad = None;
    env::take_totals();
    for k in from..to {
        let _ = status.write_all_at(&k.to_le_bytes(), 0);
        let s = seed_of(id, seed, k);
        let mut t = Tape::seeded(s);
        let sample = (texts.len() as u64) < samples;
        let mut rep = Rep { verbose: sample || digest, ..Default::default() };
        env::take_trace();
        let r = guarded(f, &mut t, &mut rep);
        runs += 1;
        disc += rep.discard as u64;
        foreign += rep.foreign;
        steps += rep.steps;
        attempts += rep.attempts;
        for (h, v) in rep.hits {
            *hits.entry(h).or_default() += v;
        }
        if !rep.discard {
            cases.extend_from_slice(&rep.hash.to_le_bytes());
            for i in rep.inter {
                inters.extend_from_slice(&mix(i ^ rep.hash).to_le_bytes());
            }
            if sample && rep.text.len() < 4000 && k % 7 == 3 {
                texts.push((k, rep.text.clone()));
            }
        }
        if digest {
            let d = mix(hash_str(&rep.text) ^ env::take_trace());
            digests.extend_from_slice(&d.to_le_bytes());
        }
        if let Err(e) = r {
            bad = Some((k, s, trim(&t), e));
            break;
        }
    }
    let (faults, calls) = env::take_totals();
    std::fs::write(format!("{dir}/cases"), &cases).expect("cases");
    std::fs::write(format!("{dir}/inters"), &inters).expect("inters");
    std::fs::write(format!("{dir}/digests"), &digests).expect("digests");
    let mut o = format!(
        "{{\"runs\":{runs},\"discarded\":{disc},\"foreign\":{foreign},\"steps\":{steps},\"attempts\":{attempts},\"callbacks\":{calls}"
    );
    let (lr, lb) = logs::totals();
    let _ = write!(o, ",\"log_records\":{lr},\"log_bytes\":{lb},\"hits\":{{");
    for (i, (h, v)) in hits.iter().enumerate() {
        let _ = write!(o, "{}{}:{v}", if i > 0 { "," } else { "" }, json(h));
    }
    o.push_str("},\"faults\":{");
    let mut first = true;
    for (k, row) in faults.iter().enumerate() {
        for (x, v) in row.iter().enumerate() {
            if *v > 0 {
                let name = format!("{} {}", env::K_NAMES[k], env::F_NAMES[x]);
                let _ = write!(o, "{}{}:{v}", if first { "" } else { "," }, json(&name));
                first = false;
            }
        }
    }
    o.push_str("},\"samples\":[");
    for (i, (k, x)) in texts.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json(&format!("run {k}: {}", x.trim_end())));
    }
    o.push(']');
    if let Some((k, s, t, e)) = bad {
        let _ = write!(o, ",\"violation\":{{\"run\":{k},\"seed\":{s},\"tape\":{},\"message\":{}}}", tape_json(&t), json(&e));
    }
    o.push('}');
    println!("{o}");
}

/// The tape of a run, its number known: what it is even if it never ends.
fn tape_of(a: &[String]) {
    let (id, seed, k) = (&a[0], a[1].parse().expect("seed"), a[2].parse().expect("run"));
    let s = seed_of(id, seed, k);
    // as many choices as any run makes
    let mut t = Tape::seeded(s);
    let f = prop(id);
    // the run may not come back: the choices are written by the tape itself
    tape::record(&a[3]);
    let _ = guarded(f, &mut t, &mut Rep::default());
}

fn numbers(s: &str) -> Vec<u32> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect()
}

fn stdin_text() -> String {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("tape");
    s
}

fn stdin_tape() -> Vec<u32> {
    numbers(&stdin_text())
}

/// One line of a program of runs: `#<seed> <run>` or the tape itself.
fn line_tape(id: &str, l: &str) -> Tape {
    match l.strip_prefix('#').map(|x| x.split_once(' ').expect("seed and run")) {
        Some((s, k)) => Tape::seeded(seed_of(id, s.parse().expect("seed"), k.parse().expect("run"))),
        None => Tape::replay(numbers(l)),
    }
}

/// `run <id>`: the tape on stdin, everything about it on stdout. Exit status 1: a violation.
/// Lines before the last one are runs that come first in the same process.
fn run_tape(a: &[String]) -> i32 {
    let f = prop(&a[0]);
    let text = stdin_text();
    let text = text.strip_suffix('\n').unwrap_or(&text);
    let (before, last) = text.rsplit_once('\n').unwrap_or(("", text));
    for l in before.lines() {
        let mut rep = Rep { verbose: a[0] == "P23", ..Default::default() };
        let _ = guarded(f, &mut line_tape(&a[0], l), &mut rep);
    }
    let mut t = line_tape(&a[0], last);
    let mut rep = Rep { verbose: true, ..Default::default() };
    env::take_trace();
    let r = guarded(f, &mut t, &mut rep);
    print!("{}", rep.text);
    if a[0] == "P23" {
        println!("calls into user code: {:016x}", env::take_trace());
    }
    match r {
        Ok(()) => 0,
        Err(e) => {
            println!("VIOLATED {e}");
            1
        }
    }
}

/// `shrink <id> <seconds>`: the tape on stdin, a smaller one on stdout.
fn shrink_tape(a: &[String]) {
    let limit = Duration::from_secs_f64(a[1].parse().expect("seconds"));
    let (t, tries) = shrink::shrink(prop(&a[0]), stdin_tape(), limit);
    let (t2, msg) = shrink::attempt(prop(&a[0]), &t);
    println!("{{\"tape\":{},\"tries\":{tries},\"message\":{},\"same\":{}}}", tape_json(&t), json(&msg.unwrap_or_default()), t == t2);
}

fn main() {
    run::silence();
    sched::install();
    logs::install();
    sched::on_stuck(|m| {
        println!("STUCK {m}");
        let _ = std::io::stdout().flush();
        std::process::exit(70)
    });
    let a: Vec<String> = std::env::args().skip(1).collect();
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || match a[0].as_str() {
        "work" => {
            work(&a[1..]);
            0
        }
        "run" => run_tape(&a[1..]),
        "shrink" => {
            shrink_tape(&a[1..]);
            0
        }
        "tape" => {
            tape_of(&a[1..]);
            0
        }
        "seams" => {
            println!("{}", if cfg!(neure_sim) { "on" } else { "off" });
            0
        }
        x => {
            eprintln!("unknown: {x}");
            2
        }
    });
    let code = th.expect("thread").join().unwrap_or(71);
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
