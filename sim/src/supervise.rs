//! Distribution of the runs over worker processes, collection of results, minimisation, evidence.

use crate::ctx::{Ctx, Stats, Tier};
use crate::props;
use crate::replay::{quote, Replay};
use crate::{arg, checked_slot, execute, run_seed, tier_of, SLOTS};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// A run that is silent for this long in real time is hanging in code the simulator cannot interrupt
const HANG: Duration = Duration::from_secs(90);

fn seed_of(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| {
        s.bytes()
            .fold(1u64, |h, b| crate::prng::mix2(h, b as u64))
            >> 1
    })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\")
        .replace('\n', "\\n")
        .replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// One slice of the runs: indices slot, slot + 8, ...
pub fn worker(args: &[String]) -> i32 {
    let prop = arg(args, "--property").unwrap();
    let tier = tier_of(&arg(args, "--tier").unwrap());
    let seed = seed_of(&arg(args, "--seed").unwrap());
    let slot: u64 = arg(args, "--slot").unwrap().parse().unwrap();
    let runs: u64 = arg(args, "--runs").unwrap().parse().unwrap();
    let cap: u64 = arg(args, "--cap").unwrap().parse().unwrap();
    let skip: u64 = arg(args, "--skip").map_or(0, |s| s.parse().unwrap());
    let t0 = Instant::now();
    let mut total = Stats::default();
    let mut seen = HashSet::new();
    let (mut done, mut nontrivial, mut samples) = (0u64, 0u64, 0);
    let out = std::io::stdout();
    let say = |s: String| {
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
    };
    let mut i = slot + skip * SLOTS;
    while i < runs {
        if t0.elapsed().as_secs() >= cap {
            break;
        }
        say(format!("S {i}"));
        let mut ctx = Ctx::seeded(run_seed(seed, &prop, i), tier);
        let r = execute(&prop, &mut ctx);
        done += 1;
        total.ops += ctx.stats.ops;
        for (k, v) in &ctx.stats.count {
            *total.count.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &ctx.stats.max {
            let e = total.max.entry(k.clone()).or_insert(0.0);
            if *v > *e {
                *e = *v;
                if std::env::var_os("SIM_WORST").is_some() && *v > 0.3 {
                    eprintln!("worst {k} = {v:.3} at run {i}");
                }
            }
        }
        if ctx.stats.nontrivial {
            nontrivial += 1;
            if seen.insert(ctx.stats.hash) {
                say(format!("H {:x}", ctx.stats.hash));
            }
            if samples < 2 && !ctx.trace.is_empty() {
                samples += 1;
                say(format!("T {i}\t{}", esc(&ctx.trace.join("; "))));
            }
        }
        if let Err(v) = r {
            let ch: Vec<String> = ctx.taken.iter().map(|c| c.to_string()).collect();
            say(format!(
                "V {i}\t{}\t{}\t{}\t{}",
                esc(&v.class),
                esc(&v.msg),
                ch.join(","),
                esc(&ctx.trace.join("\n"))
            ));
            if std::env::var_os("SIM_KEEP_GOING").is_none() {
                break;
            }
        }
        i += SLOTS;
    }
    for (k, v) in &total.count {
        say(format!("C {k}\t{v}"));
    }
    for (k, v) in &total.max {
        say(format!("M {k}\t{v:e}"));
    }
    say(format!("E {done}\t{nontrivial}\t{}", total.ops));
    0
}

#[derive(Clone)]
struct Found {
    index: u64,
    class: String,
    msg: String,
    choices: Vec<u64>,
    trace: Vec<String>,
}

struct Slot {
    child: Child,
    current: Option<u64>,
    /// time without a sign of life, as far as this process was itself running
    idle: Duration,
    ended: bool,
    complete: bool,
}

pub fn check(args: &[String]) -> i32 {
    let prop = arg(args, "--property").unwrap();
    let tier_s = arg(args, "--tier").unwrap_or("quick".into());
    let tier = tier_of(&tier_s);
    let seed_s = arg(args, "--seed").unwrap_or("1".into());
    let seed = seed_of(&seed_s);
    let bins = [arg(args, "--release").unwrap(), arg(args, "--checked").unwrap()];
    let outdir = arg(args, "--out").unwrap_or(".".into());
    let Some(p) = props::find(&prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let runs = arg(args, "--runs").map_or(
        if tier == Tier::Quick { p.quick } else { p.thorough },
        |r| r.parse().unwrap(),
    );
    let cap: u64 = arg(args, "--cap").map_or(if tier == Tier::Quick { 60 } else { 780 }, |r| {
        r.parse().unwrap()
    });
    println!("seed {seed}: {runs} simulated runs of {prop} ({tier_s}), wall limit {cap} s");
    let t0 = Instant::now();

    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let mut slots = vec![];
    for s in 0..SLOTS {
        let bin = &bins[checked_slot(s) as usize];
        let mut child = match Command::new(bin)
            .args(["worker", "--property", &prop, "--tier", &tier_s, "--seed"])
            .arg(seed.to_string())
            .args(["--slot", &s.to_string(), "--runs", &runs.to_string()])
            .args(["--cap", &cap.to_string()])
            .stdout(Stdio::piped())
            .stdin(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start {bin}: {e}");
                return 3;
            }
        };
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for line in BufReader::new(out).lines() {
                match line {
                    Ok(l) => {
                        let _ = tx.send((s as usize, Some(l)));
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((s as usize, None));
        });
        slots.push(Slot {
            child,
            current: None,
            idle: Duration::ZERO,
            ended: false,
            complete: false,
        });
    }

    let mut stats = Stats::default();
    let (mut done, mut nontrivial) = (0u64, 0u64);
    let mut hashes: HashSet<String> = HashSet::new();
    let mut samples: BTreeMap<u64, String> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let mut looked = Instant::now();
    while slots.iter().any(|s| !s.ended) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((s, Some(line))) => {
                slots[s].idle = Duration::ZERO;
                let (tag, rest) = line.split_at(line.len().min(2));
                let f: Vec<&str> = rest.split('\t').collect();
                match tag {
                    "S " => slots[s].current = rest.parse().ok(),
                    "H " => {
                        hashes.insert(rest.to_string());
                    }
                    "T " => {
                        samples.insert(f[0].parse().unwrap_or(0), unesc(f[1]));
                    }
                    "C " => *stats.count.entry(f[0].into()).or_insert(0) += f[1].parse::<u64>().unwrap_or(0),
                    "M " => {
                        let v: f64 = f[1].parse().unwrap_or(f64::INFINITY);
                        let e = stats.max.entry(f[0].into()).or_insert(0.0);
                        *e = e.max(v);
                    }
                    "E " => {
                        done += f[0].parse::<u64>().unwrap();
                        nontrivial += f[1].parse::<u64>().unwrap();
                        stats.ops += f[2].parse::<u64>().unwrap();
                        slots[s].complete = true;
                    }
                    "V " => {
                        let fd = Found {
                            index: f[0].parse().unwrap(),
                            class: unesc(f[1]),
                            msg: unesc(f[2]),
                            choices: f[3].split(',').filter_map(|c| c.parse().ok()).collect(),
                            trace: unesc(f[4]).lines().map(|l| l.to_string()).collect(),
                        };
                        if std::env::var_os("SIM_KEEP_GOING").is_some() {
                            println!("run {}: [{}] {}\n    {}", fd.index, fd.class, fd.msg, fd.trace.join("\n    "));
                        }
                        found.push(fd);
                    }
                    _ => {}
                }
            }
            Ok((s, None)) => {
                slots[s].ended = true;
                let st = slots[s].child.wait();
                if !slots[s].complete {
                    match slots[s].current {
                        Some(i) if found.iter().all(|f| f.index > i || f.class == "hang") => {
                            if found.iter().any(|f| f.index == i) {
                                continue;
                            }
                            let f = Found {
                                index: i,
                                class: "process-died".into(),
                                msg: format!("the process was brought down: {st:?}"),
                                choices: vec![],
                                trace: vec![],
                            };
                            found.push(f);
                        }
                        Some(_) => {}
                        None => {
                            eprintln!("worker {s} failed to start: {st:?}");
                            return 3;
                        }
                    }
                }
            }
            Err(_) => {}
        }
        // a machine that was suspended is not a worker that hangs
        let step = looked.elapsed().min(Duration::from_secs(1));
        looked = Instant::now();
        let best = found.iter().map(|f| f.index).min();
        for s in slots.iter_mut() {
            if s.ended {
                continue;
            }
            s.idle += step;
            if s.idle > HANG {
                if let Some(i) = s.current {
                    found.push(Found {
                        index: i,
                        class: "hang".into(),
                        msg: format!("no progress within {HANG:?}"),
                        choices: vec![],
                        trace: vec![],
                    });
                }
                let _ = s.child.kill();
                s.idle = Duration::ZERO;
            }
            // nothing this worker may still find is of interest
            if let (Some(b), Some(c)) = (best, s.current) {
                if c > b && std::env::var_os("SIM_KEEP_GOING").is_none() {
                    let _ = s.child.kill();
                }
            }
        }
    }
    let run_wall = t0.elapsed().as_secs_f64();

    found.sort_by_key(|f| f.index);
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found.first() {
        violations = 1;
        code = 1;
        let flavour = if checked_slot(f.index) { "checked" } else { "release" };
        let bin = &bins[checked_slot(f.index) as usize];
        let _ = std::fs::create_dir_all(format!("{outdir}/replays"));
        let path = format!("{outdir}/replays/{prop}-{seed}-{}.json", f.index);
        let mut r = Replay {
            property: prop.clone(),
            class: f.class.clone(),
            message: f.msg.clone(),
            flavour: flavour.into(),
            tier: tier_s.clone(),
            seed,
            run: f.index,
            history: 0,
            choices: f.choices.clone(),
            trace: f.trace.clone(),
        };
        if f.choices.is_empty() {
            // the worker could not tell: run it again with a log of its choices
            let log = format!("{path}.log");
            let _ = run_limited(
                Command::new(bin)
                    .args(["one", "--property", &prop, "--tier", &tier_s, "--seed"])
                    .arg(seed.to_string())
                    .args(["--index", &f.index.to_string(), "--log", &log]),
                Duration::from_secs(30),
            );
            if let Ok(s) = std::fs::read_to_string(&log) {
                r.choices = s.lines().filter_map(|l| l.parse().ok()).collect();
            }
            let _ = std::fs::remove_file(&log);
        }
        let _ = r.save(&path);
        let before = r.choices.len();
        let same = |path: &str, limit: u64| -> bool {
            match run_limited(Command::new(bin).args(["replay", path]), Duration::from_secs(limit)) {
                None => f.class == "hang",
                Some((c, out)) => {
                    c == Some(1) && out.contains(&format!("[{}]", f.class))
                        || (c.is_none() || c == Some(134)) && f.class == "process-died"
                }
            }
        };
        let limit = if f.class == "hang" { 40 } else { 60 };
        let mut ok = same(&path, limit);
        if ok && f.class != "hang" && f.class != "process-died" {
            run_limited(Command::new(bin).args(["shrink", &path]), Duration::from_secs(60));
            ok = same(&path, limit);
            if !ok {
                let _ = r.save(&path);
                ok = same(&path, limit);
            }
        }
        if !ok {
            // depends on what ran before in the same process
            for h in [1, 8, 64, 512, f.index / SLOTS] {
                r.history = h.min(f.index / SLOTS);
                let _ = r.save(&path);
                if same(&path, 300) {
                    ok = true;
                    break;
                }
            }
        }
        let m = Replay::load(&path).unwrap_or(r);
        println!("violated in run {} ({flavour} build): [{}] {}", f.index, m.class, m.message);
        for t in &m.trace {
            println!("    {t}");
        }
        println!(
            "minimised from {before} to {} choices; replay {}",
            m.choices.len(),
            if ok { "reproduces the violation in a fresh process" } else { "does NOT reproduce: the code is not a function of its inputs" }
        );
        println!("VIOLATION property={prop} replay={path}");
    }

    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = stats.count.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let other: BTreeMap<&String, &u64> = stats.count.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let obj = |m: &BTreeMap<&String, &u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", quote(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let margins: Vec<String> = stats
        .max
        .iter()
        .map(|(k, v)| format!("{}: {}", quote(k), if v.is_finite() { format!("{v:e}") } else { "null".into() }))
        .collect();
    let smp: Vec<String> = samples.iter().take(6).map(|(i, s)| quote(&format!("run {i}: {s}"))).collect();
    let strs = |v: &[&str]| v.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n  \"evaluations\": {done},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {nontrivial},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs_per_hour\": {},\n  \"simulated_time_ticks\": {},\n  \"tick\": \"one arithmetic operation on a simulated scalar\",\n  \"faults_fired\": {},\n  \"counters\": {},\n  \"largest_deviation_relative_to_limit\": {{{}}},\n  \"components_real\": [{}],\n  \"components_simulated\": [{}],\n  \"builds\": [\"release (no debug assertions): slots 0-5\", \"checked (debug assertions): slots 6-7\"]\n}},\n\"wall_s\": {:.2},\n\"violations\": {violations},\n\"assumptions\": [{}]\n}}\n",
        quote(&prop),
        quote(&tier_s),
        seed & 0x1f_ffff_ffff_ffff,
        hashes.len(),
        quote(p.rule),
        smp.join(",\n    "),
        (done as f64 / run_wall.max(1e-3) * 3600.0) as u64,
        stats.ops,
        obj(&faults),
        obj(&other),
        margins.join(", "),
        strs(p.real),
        strs(p.stub),
        wall,
        strs(p.assume),
    );
    let _ = std::fs::create_dir_all(&outdir);
    if let Err(e) = std::fs::write(format!("{outdir}/{prop}.json"), ev) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{done} runs ({nontrivial} non-trivial, {} distinct), {} simulated operations, {run_wall:.1} s",
        hashes.len(),
        stats.ops
    );
    if std::env::var_os("SIM_VERBOSE").is_some() {
        for (k, v) in &stats.count {
            println!("  {k} = {v}");
        }
        for (k, v) in &stats.max {
            println!("  margin {k} = {v:.4}");
        }
    }
    if code == 0 && done == 0 {
        eprintln!("no run was executed");
        return 3;
    }
    code
}

/// Exit code (None if killed by a signal) and output; None on timeout
fn run_limited(cmd: &mut Command, limit: Duration) -> Option<(Option<i32>, String)> {
    let mut child = cmd
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .ok()?;
    let mut out = child.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let o = h.join().unwrap_or_default();
                return Some((st.code(), o));
            }
            Ok(None) if t0.elapsed() < limit => std::thread::sleep(Duration::from_millis(20)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
        }
    }
}

pub fn one(args: &[String]) -> i32 {
    let prop = arg(args, "--property").unwrap();
    let tier = tier_of(&arg(args, "--tier").unwrap_or("quick".into()));
    let seed = seed_of(&arg(args, "--seed").unwrap_or("1".into()));
    let index: u64 = arg(args, "--index").unwrap().parse().unwrap();
    let mut ctx = Ctx::seeded(run_seed(seed, &prop, index), tier);
    ctx.log = arg(args, "--log").and_then(|f| std::fs::File::create(f).ok());
    let r = execute(&prop, &mut ctx);
    report(&ctx, &r)
}

/// A process started by a run for a few calls of its own
pub fn cold(args: &[String]) -> i32 {
    let prop = arg(args, "--property").unwrap();
    let choices = arg(args, "--choices").unwrap_or_default();
    let choices = choices.split(',').filter_map(|x| x.parse().ok()).collect();
    let mut ctx = Ctx::replay(choices, Tier::Quick);
    match execute(&prop, &mut ctx) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

fn report(ctx: &Ctx, r: &crate::ctx::Res) -> i32 {
    for t in &ctx.trace {
        println!("    {t}");
    }
    for (k, v) in &ctx.stats.max {
        println!("  margin {k} = {v:.4}");
    }
    println!("hash {:x} ops {}", ctx.stats.hash, ctx.stats.ops);
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(v) => {
            println!("violated: [{}] {}", v.class, v.msg);
            1
        }
    }
}

pub fn replay_main(args: &[String]) -> i32 {
    let path = &args[1];
    let r = match Replay::load(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let tier = tier_of(&r.tier);
    for h in (1..=r.history).rev() {
        let mut ctx = Ctx::seeded(run_seed(r.seed, &r.property, r.run - h * SLOTS), tier);
        let _ = execute(&r.property, &mut ctx);
    }
    let mut ctx = if r.history > 0 {
        Ctx::seeded(run_seed(r.seed, &r.property, r.run), tier)
    } else {
        Ctx::replay(r.choices.clone(), tier)
    };
    let res = execute(&r.property, &mut ctx);
    let code = report(&ctx, &res);
    if code == 1 {
        println!("VIOLATION property={} replay={path}", r.property);
    }
    code
}

pub fn shrink_main(args: &[String]) -> i32 {
    let path = &args[1];
    let Ok(mut best) = Replay::load(path) else {
        return 2;
    };
    let tier = tier_of(&best.tier);
    let t0 = Instant::now();
    let mut tries = 0u64;
    let class = best.class.clone();
    let prop = best.property.clone();
    // returns the choices really made if the violation persists
    let mut attempt = |c: Vec<u64>| -> Option<(Vec<u64>, String, Vec<String>)> {
        tries += 1;
        if tries > 6000 || t0.elapsed().as_secs() > 40 {
            return None;
        }
        let mut ctx = Ctx::replay(c, tier);
        match execute(&prop, &mut ctx) {
            Err(v) if v.class == class => {
                let mut t = ctx.taken;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some((t, v.msg, ctx.trace))
            }
            _ => None,
        }
    };
    let set = |best: &mut Replay, r: (Vec<u64>, String, Vec<String>)| -> bool {
        let smaller = r.0.len() < best.choices.len()
            || r.0.len() == best.choices.len() && r.0 < best.choices;
        if smaller {
            best.choices = r.0;
            best.message = r.1;
            best.trace = r.2;
            let _ = best.save(path);
        }
        smaller
    };
    match attempt(best.choices.clone()) {
        Some(r) => {
            best.message = r.1.clone();
            best.trace = r.2.clone();
            set(&mut best, r);
        }
        None => return 1,
    }
    loop {
        let before = best.choices.clone();
        // delete chunks
        let mut size = best.choices.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.choices.len() {
                let mut c = best.choices.clone();
                c.drain(i..(i + size).min(c.len()));
                match attempt(c) {
                    Some(r) => {
                        if !set(&mut best, r) {
                            i += size
                        }
                    }
                    None => i += size,
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = best.choices.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.choices.len() {
                let end = (i + size).min(best.choices.len());
                if best.choices[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.choices.clone();
                    c[i..end].fill(0);
                    if let Some(r) = attempt(c) {
                        set(&mut best, r);
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // reduce single numbers
        for i in 0..best.choices.len() {
            loop {
                let Some(&v) = best.choices.get(i) else { break };
                if v == 0 {
                    break;
                }
                let mut hit = false;
                for w in [v / 2, v - 1] {
                    if w == v {
                        continue;
                    }
                    let mut c = best.choices.clone();
                    c[i] = w;
                    if let Some(r) = attempt(c) {
                        if set(&mut best, r) {
                            hit = true;
                            break;
                        }
                    }
                }
                if !hit {
                    break;
                }
            }
        }
        if best.choices == before {
            break;
        }
    }
    let _ = best.save(path);
    0
}
