//! Workers, supervision, minimisation and replay.
use crate::env::*;
use crate::props;
use simrt::rng::{combine, hash_str};
use simrt::{alloc, calls, sched, sys, Tape};
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub struct Args {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub variant: String,
    pub cases: u64,
    pub workers: u64,
    pub wall: f64,
    pub out: String,
    pub known: Vec<String>,
    pub replays: String,
}

pub fn init_process() {
    sched::init();
    calls::init();
    install_fatal();
    install_panic_hook();
}

/// things the standard library sets up once per thread or process
fn warm_up() {
    let mut env = Env::new(vec![], false, "");
    props::warm_up(&mut env);
    let s = shm();
    for c in s.cnt.iter_mut() {
        *c = 0;
    }
    s.ndec = 0;
    s.digest = 0;
}

pub fn case_seed(a: &Args, i: u64) -> u64 {
    combine(combine(a.seed, hash_str(&a.property)), i)
}

fn run_case(prop: &str, tape: &mut Tape, env: &mut Env) -> Res {
    let s = shm();
    s.ndec = 0;
    s.digest = 0x1234;
    s.run = 0;
    env.run = 0;
    context("setup");
    bump(C::cases, 1);
    let j = judged();
    let r = props::run(prop, env, tape);
    count_case(j);
    if let Err(ref v) = r {
        digest(hash_str(&v.class));
    }
    r
}

fn allocs_diff(a: &[(u64, usize)], b: &[(u64, usize)]) -> String {
    for i in 0..a.len().min(b.len()) {
        if a[i] != b[i] {
            return format!("{}: (steps, bytes) {:?} and then {:?}", i, &a[i..a.len().min(i + 4)], &b[i..b.len().min(i + 4)]);
        }
    }
    format!("{} and then {}", a.len(), b.len())
}

fn save_cover() {
    let m = sched::coverage_map();
    let s = shm();
    let n = m.len().min(s.cover.len());
    for i in 0..n {
        s.cover[i] |= m[i];
    }
}

fn worker(a: &Args, w: u64, from: u64, deadline: f64) -> ! {
    let s = shm();
    warm_up();
    let mut i = from;
    while i < a.cases {
        if sys::real_now() > deadline {
            break;
        }
        s.case = i;
        s.state = 1;
        s.ntape = 0;
        unsafe {
            sys::alarm(240);
        }
        let mut env = Env::new(a.known.clone(), a.tier == "thorough", &a.variant);
        let mut tape = Tape::generate(case_seed(a, i));
        if i % 50 == 7 {
            trace_start();
            alloc::log_start();
        }
        let r = run_case(&a.property, &mut tape, &mut env);
        match r {
            Ok(()) => {
                if i % 50 == 7 {
                    let first = trace_take();
                    let first_allocs = alloc::log_take();
                    trace_start();
                    alloc::log_start();
                    let d = s.digest;
                    bump(C::determinism_checks, 1);
                    let mut t2 = Tape::replay(tape.vals.clone());
                    let mut env = Env::new(a.known.clone(), a.tier == "thorough", &a.variant);
                    let r = run_case(&a.property, &mut t2, &mut env);
                    let second = trace_take();
                    let second_allocs = alloc::log_take();
                    if r.is_err() || s.digest != d {
                        push_violation(
                            s,
                            i,
                            "nondeterministic:repeat",
                            &format!("the same simulated execution behaved differently when repeated: {:x} {:x} {:?}: {}; allocations {}", d, s.digest, r.err(), trace_diff(&first, &second), allocs_diff(&first_allocs, &second_allocs)),
                        );
                    }
                }
            }
            Err(v) => {
                push_violation(s, i, &v.class, &v.detail);
                if s.nviol as usize >= MAXV {
                    s.next = u64::MAX;
                    break;
                }
            }
        }
        i += a.workers;
        s.next = i;
    }
    let _ = w;
    save_cover();
    s.state = 3;
    unsafe { sys::_exit(0) }
}

/// The log of one generated case
pub fn show_case(a: &Args, i: u64) -> i32 {
    init_process();
    set_shm(try_page());
    warm_up();
    unsafe {
        LOGGING = true;
    }
    let s = shm();
    let mut env = Env::new(a.known.clone(), a.tier == "thorough", &a.variant);
    let mut tape = Tape::generate(case_seed(a, i));
    let r = run_case(&a.property, &mut tape, &mut env);
    println!("{}\n{:?} digest {:x}", String::from_utf8_lossy(&s.log[..s.log_len as usize]), r.map_err(|v| (v.class, v.detail)), s.digest);
    0
}

fn spawn_worker(a: &Args, page: *mut Shm, w: u64, from: u64, deadline: f64) -> i32 {
    set_shm(page);
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        worker(a, w, from, deadline);
    }
    pid
}

/// Result of a single execution in a child process
#[derive(Clone, Debug)]
pub struct Outcome {
    pub v: Option<Violation>,
    pub digest: u64,
    pub dec: Vec<Vec<(u64, u32)>>,
    pub log: String,
    pub tape_used: usize,
}

/// Seconds a single execution may take before it is given up
static mut TRY_LIMIT: u32 = 100;

pub fn try_case(prop: &str, variant: &str, tape: &[u64], dec: Option<&Vec<Vec<(u64, u32)>>>, known: &[String], deep: bool, logging: bool) -> Outcome {
    let page = try_page();
    set_shm(page);
    let s = shm();
    s.nviol = 0;
    s.state = 0;
    s.ndec = 0;
    s.log_len = 0;
    s.case = 0;
    s.digest = 0;
    s.ntape = 0;
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        let s = shm();
        unsafe {
            sys::alarm(TRY_LIMIT);
        }
        warm_up();
        s.log_len = 0;
        unsafe {
            LOGGING = logging;
        }
        s.state = 1;
        let mut env = Env::new(known.to_vec(), deep, variant);
        env.overrides = dec.cloned();
        let mut t = Tape::replay(tape.to_vec());
        let r = run_case(prop, &mut t, &mut env);
        s.ntape = t.used() as u64;
        if let Err(v) = r {
            push_violation(s, 0, &v.class, &v.detail);
        }
        s.state = 3;
        unsafe { sys::_exit(0) }
    }
    let mut st = 0;
    unsafe {
        sys::waitpid(pid, &mut st, 0);
    }
    let s = shm();
    let v = if s.nviol > 0 {
        Some(read_violation(&s.viol[0]).1)
    } else if s.state != 3 {
        Some(Violation { class: "died".to_string(), detail: format!("the process ended with status {:x}", st) })
    } else {
        None
    };
    let mut d: Vec<Vec<(u64, u32)>> = Vec::new();
    for i in 0..s.ndec as usize {
        let (run, c, idx) = s.dec[i];
        while d.len() <= run as usize {
            d.push(vec![]);
        }
        d[run as usize].push((idx, c));
    }
    Outcome {
        v,
        digest: s.digest,
        dec: d,
        log: String::from_utf8_lossy(&s.log[..s.log_len as usize]).to_string(),
        tape_used: if s.ntape > 0 { s.ntape as usize } else { tape.len() },
    }
}
fn try_page() -> *mut Shm {
    static mut P: *mut Shm = std::ptr::null_mut();
    unsafe {
        if P.is_null() {
            P = new_shm();
        }
        P
    }
}

pub struct Minimal {
    pub tape: Vec<u64>,
    pub dec: Option<Vec<Vec<(u64, u32)>>>,
    pub out: Outcome,
    pub tries: u64,
}

pub fn minimise(a: &Args, tape0: Vec<u64>, class: &str, budget: f64) -> Option<Minimal> {
    let deep = a.tier == "thorough";
    let start = sys::real_now();
    let mut tries = 0u64;
    let mut attempt = |t: &[u64], d: Option<&Vec<Vec<(u64, u32)>>>| -> Option<Outcome> {
        tries += 1;
        unsafe { TRY_LIMIT = if tries == 1 { 60 } else { 10 } };
        let o = try_case(&a.property, &a.variant, t, d, &a.known, deep, false);
        unsafe { TRY_LIMIT = 100 };
        match o.v {
            Some(ref v) if v.class == class => Some(o),
            _ => None,
        }
    };
    let mut best = attempt(&tape0, None)?;
    let mut tape = tape0;
    tape.truncate(best.tape_used.max(1).min(tape.len()));
    let left = |s: f64| sys::real_now() - s < budget;
    // shorten from the end
    let mut n = tape.len() / 2;
    while n >= 1 && left(start) {
        if tape.len() > n {
            let t = tape[..tape.len() - n].to_vec();
            if let Some(o) = attempt(&t, None) {
                tape = t;
                best = o;
                continue;
            }
        }
        n /= 2;
    }
    // delete and simplify pieces
    for round in 0..3 {
        let mut changed = false;
        let mut size = (tape.len() / 2).max(1);
        while size >= 1 && left(start) {
            let mut i = 0;
            while i < tape.len() && left(start) {
                let e = (i + size).min(tape.len());
                let mut t = tape[..i].to_vec();
                t.extend_from_slice(&tape[e..]);
                if let Some(o) = attempt(&t, None) {
                    tape = t;
                    best = o;
                    changed = true;
                    continue;
                }
                if tape[i..e].iter().any(|x| *x != 0) {
                    let mut t = tape.clone();
                    for x in t[i..e].iter_mut() {
                        *x = 0;
                    }
                    if let Some(o) = attempt(&t, None) {
                        tape = t;
                        best = o;
                        changed = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        if left(start) {
            for i in 0..tape.len() {
                while tape[i] > 0 && left(start) {
                    let mut t = tape.clone();
                    t[i] /= 2;
                    if let Some(o) = attempt(&t, None) {
                        tape = t;
                        best = o;
                        changed = true;
                    } else {
                        let mut t = tape.clone();
                        t[i] -= 1;
                        if round == 0 {
                            break;
                        }
                        match attempt(&t, None) {
                            Some(o) => {
                                tape = t;
                                best = o;
                                changed = true;
                            }
                            None => break,
                        }
                    }
                }
            }
        }
        if !changed || !left(start) {
            break;
        }
    }
    // now the schedule: replay the recorded decisions and drop as many as possible
    let mut dec = best.dec.clone();
    let total = |d: &Vec<Vec<(u64, u32)>>| -> usize { d.iter().map(|x| x.len()).sum() };
    let mut used = None;
    if total(&dec) > 0 {
        if let Some(o) = attempt(&tape, Some(&dec)) {
            best = o;
            let start2 = sys::real_now();
            let mut flat: Vec<(usize, u64, u32)> = dec.iter().enumerate().flat_map(|(r, d)| d.iter().map(move |x| (r, x.0, x.1))).collect();
            let build = |f: &[(usize, u64, u32)]| -> Vec<Vec<(u64, u32)>> {
                let m = f.iter().map(|x| x.0 + 1).max().unwrap_or(0);
                let mut d = vec![vec![]; m];
                for x in f {
                    d[x.0].push((x.1, x.2));
                }
                d
            };
            let mut size = flat.len();
            while size >= 1 && sys::real_now() - start2 < budget / 2.0 {
                let mut i = 0;
                while i < flat.len() && sys::real_now() - start2 < budget / 2.0 {
                    let e = (i + size).min(flat.len());
                    let mut t = flat[..i].to_vec();
                    t.extend_from_slice(&flat[e..]);
                    let d = build(&t);
                    if let Some(o) = attempt(&tape, Some(&d)) {
                        flat = t;
                        dec = d;
                        best = o;
                        continue;
                    }
                    i += size;
                }
                size /= 2;
            }
            used = Some(dec);
        }
    }
    Some(Minimal { tape, dec: used, out: best, tries })
}

pub fn write_replay(a: &Args, class: &str, m: &Minimal, path: &str) {
    let o = try_case(&a.property, &a.variant, &m.tape, m.dec.as_ref(), &a.known, a.tier == "thorough", true);
    let mut s = String::new();
    let _ = writeln!(s, "property {}", a.property);
    let _ = writeln!(s, "variant {}", a.variant);
    let _ = writeln!(s, "tier {}", a.tier);
    let _ = writeln!(s, "verif_seed {}", a.seed);
    let _ = writeln!(s, "class {}", class);
    let _ = writeln!(s, "digest {:x}", m.out.digest);
    let _ = writeln!(s, "tape {}", m.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for k in a.known.iter() {
        let _ = writeln!(s, "known {}", k);
    }
    if let Some(ref d) = m.dec {
        let _ = writeln!(s, "schedule");
        for (i, r) in d.iter().enumerate() {
            let _ = writeln!(s, "run {} {}", i, r.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" "));
        }
    }
    let _ = writeln!(s, "end");
    if let Some(ref v) = m.out.v {
        let _ = writeln!(s, "# violation: {}", v.detail);
    }
    let _ = writeln!(s, "# execution, {}:", if m.tries > 0 { format!("minimised in {} attempts", m.tries) } else { "not minimised".to_string() });
    for l in o.log.lines() {
        let _ = writeln!(s, "# {}", l);
    }
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("cannot write {}: {}", path, e);
    }
}

/// A violation which a single case doesn't show in a fresh process
fn write_sequence(a: &Args, class: &str, detail: &str, from: u64, case: u64, path: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "property {}", a.property);
    let _ = writeln!(s, "variant {}", a.variant);
    let _ = writeln!(s, "tier {}", a.tier);
    let _ = writeln!(s, "verif_seed {}", a.seed);
    let _ = writeln!(s, "class {}", class);
    let _ = writeln!(s, "sequence {} {} {}", from, a.workers, case);
    for k in a.known.iter() {
        let _ = writeln!(s, "known {}", k);
    }
    let _ = writeln!(s, "end");
    let _ = writeln!(s, "# violation: {}", detail);
    let _ = writeln!(s, "# seen in case {} after the cases {}, {}, ... of the same process", case, from, from + a.workers);
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("cannot write {}: {}", path, e);
    }
}

fn replay_sequence(a: &Args, class: &str, from: u64, case: u64) -> i32 {
    init_process();
    let page = new_shm();
    let pid = spawn_worker(a, page, from % a.workers, from, sys::real_now() + 3000.0);
    let mut st = 0;
    unsafe {
        sys::waitpid(pid, &mut st, 0);
    }
    let s = unsafe { &*page };
    let mut found = None;
    for i in 0..s.nviol as usize {
        let (c, v) = read_violation(&s.viol[i]);
        if c == case {
            found = Some(v);
        }
    }
    if found.is_none() && s.state != 3 && s.case == case {
        found = Some(Violation { class: "died".to_string(), detail: format!("worker status {:x}", st) });
    }
    match found {
        Some(v) => {
            println!("VIOLATION property={} class={}", a.property, v.class);
            println!("{}", v.detail);
            if v.class == class {
                println!("REPRODUCED");
                1
            } else {
                println!("DIFFERENT from the recorded one ({})", class);
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let mut prop = String::new();
    let mut variant = String::new();
    let mut tier = String::new();
    let mut class = String::new();
    let mut dig = String::new();
    let mut tape = vec![];
    let mut known = vec![];
    let mut dec: Option<Vec<Vec<(u64, u32)>>> = None;
    let mut seed = 0;
    let mut sequence: Option<Vec<u64>> = None;
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => prop = v.to_string(),
            "variant" => variant = v.to_string(),
            "tier" => tier = v.to_string(),
            "class" => class = v.to_string(),
            "digest" => dig = v.to_string(),
            "verif_seed" => seed = v.parse().unwrap(),
            "sequence" => sequence = Some(v.split_whitespace().map(|x| x.parse().unwrap()).collect()),
            "known" => known.push(v.to_string()),
            "tape" => tape = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
            "schedule" => dec = Some(vec![]),
            "run" => {
                let mut p = v.split_whitespace();
                let i: usize = p.next().unwrap().parse().unwrap();
                let d = dec.as_mut().unwrap();
                while d.len() <= i {
                    d.push(vec![]);
                }
                d[i] = p
                    .map(|x| {
                        let (a, b) = x.split_once(':').unwrap();
                        (a.parse().unwrap(), b.parse().unwrap())
                    })
                    .collect();
            }
            "end" => break,
            _ => (),
        }
    }
    if let Some(q) = sequence {
        let a = Args { property: prop, tier, seed, variant, cases: q[2] + 1, workers: q[1], wall: 3000.0, out: String::new(), known, replays: String::new() };
        return replay_sequence(&a, &class, q[0], q[2]);
    }
    init_process();
    let o = try_case(&prop, &variant, &tape, dec.as_ref(), &known, tier == "thorough", true);
    print!("{}", o.log);
    match o.v {
        Some(v) => {
            println!("VIOLATION property={} class={} digest={:x}", prop, v.class, o.digest);
            println!("{}", v.detail);
            if v.class == class && format!("{:x}", o.digest) == dig {
                println!("REPRODUCED exactly");
                1
            } else {
                println!("DIFFERENT from the recorded one ({} {})", class, dig);
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            '\t' => r += " ",
            c if (c as u32) < 32 => r += " ",
            c => r.push(c),
        }
    }
    r
}

pub fn check(a: &Args) -> i32 {
    init_process();
    let t0 = sys::real_now();
    let deadline = t0 + a.wall;
    let mut pages: Vec<*mut Shm> = (0..a.workers).map(|_| new_shm()).collect();
    let mut pids: Vec<(i32, bool)> = Vec::new();
    let mut crashes = 0u64;
    let mut starts: Vec<u64> = (0..a.workers).collect();
    for w in 0..a.workers {
        let p = spawn_worker(a, pages[w as usize], w, w, deadline);
        pids.push((p, true));
    }
    let mut died: Vec<(u64, Violation)> = vec![];
    loop {
        if !pids.iter().any(|p| p.1) {
            break;
        }
        let mut st = 0;
        let pid = unsafe { sys::waitpid(-1, &mut st, 0) };
        if pid <= 0 {
            break;
        }
        if let Some(w) = pids.iter().position(|p| p.0 == pid && p.1) {
            let page = unsafe { &mut *pages[w] };
            if page.state == 3 {
                pids[w].1 = false;
                continue;
            }
            // it crashed in a case
            crashes += 1;
            if page.state != 2 {
                died.push((page.case, Violation { class: "died".to_string(), detail: format!("worker status {:x}", st) }));
            }
            let next = page.case + a.workers;
            if crashes > 200 || page.nviol as usize >= MAXV || next >= a.cases || sys::real_now() > deadline {
                pids[w].1 = false;
                continue;
            }
            page.state = 0;
            starts.push(next);
            let p = spawn_worker(a, pages[w], w as u64, next, deadline);
            pids[w].0 = p;
        }
    }
    let wall_search = sys::real_now() - t0;
    // merge
    let mut cnt = [0u64; NC];
    let mut ops = [0u64; 256];
    let mut known = [0u64; 64];
    let mut bits = vec![0u8; BITS / 8];
    let mut cover = vec![0u8; 1 << 18];
    let mut inter = vec![0u8; BITS / 8];
    let mut distinct = vec![0u8; BITS / 8];
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut add = |c: u64, v: Violation| {
        let e = classes.entry(v.class.clone()).or_insert((c, 0, v.detail.clone()));
        e.1 += 1;
        if c < e.0 {
            e.0 = c;
            e.2 = v.detail;
        }
    };
    for p in pages.iter() {
        let s = unsafe { &**p };
        for i in 0..NC {
            cnt[i] += s.cnt[i];
        }
        for i in 0..256 {
            ops[i] += s.ops[i];
        }
        for i in 0..64 {
            known[i] += s.known[i];
        }
        for i in 0..bits.len() {
            bits[i] |= s.bits[i];
            inter[i] |= s.interleavings[i];
            distinct[i] |= s.distinct[i];
        }
        for i in 0..cover.len() {
            cover[i] |= s.cover[i];
        }
        for i in 0..s.nviol as usize {
            let (c, v) = read_violation(&s.viol[i]);
            add(c, v);
        }
    }
    for (c, v) in died {
        add(c, v);
    }
    let states: u64 = bits.iter().map(|b| b.count_ones() as u64).sum();
    let ones = |b: &[u8]| -> u64 { b.iter().map(|b| b.count_ones() as u64).sum() };
    let (inter, distinct) = (ones(&inter), ones(&distinct));
    let covered: u64 = cover.iter().filter(|x| **x != 0).count() as u64;
    let guards = sched::coverage().1;
    // minimise what was found
    let mut viol_json = vec![];
    let mut n = 0;
    let budget = if classes.len() > 4 { 8.0 } else { 20.0 };
    for (class, (case, count, detail)) in classes.iter() {
        n += 1;
        let path = format!("{}/{}-{}-{}.replay", a.replays, a.property, a.variant, n);
        let tape = {
            // regenerate the tape of the case in a child and take it over
            let page = try_page();
            set_shm(page);
            tape_of(a, *case)
        };
        let mut reproduced = false;
        let mut tape_len = tape.len();
        let mut decisions = 0;
        let spent = sys::real_now() - t0 - wall_search;
        let minimal = if n <= 12 && spent < 200.0 { minimise(a, tape.clone(), class, budget) } else { None };
        let found = minimal.is_some();
        // the case alone as it was drawn
        let minimal = minimal.or_else(|| {
            if spent > 300.0 {
                return None;
            }
            let o = try_case(&a.property, &a.variant, &tape, None, &a.known, a.tier == "thorough", false);
            let same = o.v.as_ref().map_or(false, |v| v.class == *class);
            if same { Some(Minimal { tape: tape.clone(), dec: None, out: o, tries: 0 }) } else { None }
        });
        {
            if let Some(m) = minimal {
                tape_len = m.tape.len();
                decisions = m.dec.as_ref().map(|d| d.iter().map(|x| x.len()).sum::<usize>()).unwrap_or(0);
                write_replay(a, class, &m, &path);
                reproduced = true;
                println!("FOUND property={} class={} case={} count={} replay={}{}", a.property, class, case, count, path, if found { "" } else { " (not minimised)" });
                if let Some(ref v) = m.out.v {
                    println!("  {}", v.detail);
                }
            }
        }
        if !reproduced {
            // it takes the cases before this one, too: all cases of that process again
            let spent = sys::real_now() - t0 - wall_search;
            let from = if spent > 300.0 { Some(*case) } else { None };
            let from = from.unwrap_or_else(|| starts.iter().filter(|s| **s % a.workers == *case % a.workers && **s <= *case).max().copied().unwrap_or(*case % a.workers));
            write_sequence(a, class, detail, from, *case, &path);
            println!("FOUND property={} class={} case={} count={} replay={} (not minimised)", a.property, class, case, count, path);
            println!("  {}", detail);
        }
        viol_json.push(format!(
            "{{\"class\":\"{}\",\"case\":{},\"count\":{},\"detail\":\"{}\",\"replay\":\"{}\",\"minimised\":{},\"tape_len\":{},\"decisions\":{}}}",
            esc(class),
            case,
            count,
            esc(detail),
            esc(&path),
            found,
            tape_len,
            decisions
        ));
    }
    // what cases look like
    let mut samples = vec![];
    for c in 0..3u64 {
        let case = c * 5 + 1;
        if case >= a.cases {
            break;
        }
        set_shm(try_page());
        let tape = tape_of(a, case);
        let o = try_case(&a.property, &a.variant, &tape, None, &a.known, a.tier == "thorough", true);
        let t: String = o.log.chars().filter(|c| *c == '\n' || *c as u32 >= 32).take(2500).collect();
        samples.push(format!("{{\"variant\":\"{}\",\"case\":{},\"numbers_drawn\":{},\"log\":\"{}\"}}", a.variant, case, tape.len(), esc(&t)));
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"property\":\"{}\",\"variant\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"cases_planned\":{},\"wall_s\":{:.3},\"search_s\":{:.3},\"crashes\":{},\"states\":{},\"interleavings\":{},\"distinct\":{},\"samples\":[{}],\"covered_edges\":{},\"edges\":{},\"counters\":{{",
        a.property, a.variant, a.tier, a.seed, a.cases, sys::real_now() - t0, wall_search, crashes, states, inter, distinct, samples.join(","), covered, guards);
    let l: Vec<String> = COUNTERS.iter().enumerate().map(|(i, c)| format!("\"{}\":{}", c, cnt[i])).collect();
    s += &l.join(",");
    s += "},\"operations\":{";
    let l: Vec<String> = refmodel::ops::ALL.iter().filter(|k| ops[**k as usize] > 0).map(|k| format!("\"{}\":{}", refmodel::ops::name(*k), ops[*k as usize])).collect();
    s += &l.join(",");
    s += "},\"known\":{";
    let l: Vec<String> = a.known.iter().enumerate().take(64).map(|(i, k)| format!("\"{}\":{}", esc(k), known[i])).collect();
    s += &l.join(",");
    s += "},\"violations\":[";
    s += &viol_json.join(",");
    s += "]}";
    if !a.out.is_empty() {
        if let Err(e) = std::fs::write(&a.out, s) {
            eprintln!("cannot write {}: {}", a.out, e);
            return 2;
        }
    }
    let _ = alloc::live();
    if classes.is_empty() {
        0
    } else {
        1
    }
}

/// Runs the case in generation mode in a child and fetches the tape it drew. A case which kills
/// its process leaves the values drawn so far.
fn tape_of(a: &Args, case: u64) -> Vec<u64> {
    let s = shm();
    s.nviol = 0;
    s.state = 0;
    s.ntape = 0;
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        unsafe {
            sys::alarm(100);
        }
        warm_up();
        let s = shm();
        s.state = 1;
        let mut env = Env::new(a.known.clone(), a.tier == "thorough", &a.variant);
        let mut tape = Tape::generate(case_seed(a, case));
        tape.mirror(s.tape.as_mut_ptr(), s.tape.len(), &mut s.ntape as *mut u64);
        let _ = run_case(&a.property, &mut tape, &mut env);
        unsafe { sys::_exit(0) }
    }
    let mut st = 0;
    unsafe {
        sys::waitpid(pid, &mut st, 0);
    }
    let s = shm();
    s.tape[..s.ntape as usize].to_vec()
}
