//! Command line of a harness binary: `batch`, `seed` and `replay`.
use crate::engine::{run, Replay, RunResult};
use crate::raw;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

pub struct Prop {
    pub id: &'static str,
    pub f: fn(),
    /// Scheduling-step bound of one run (progress is stated as termination within it).
    pub cap: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn map_json(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn rec_json(r: &Replay) -> String {
    let f = |s: &Vec<(u32, u64)>| {
        let v: Vec<String> = s.iter().map(|(i, v)| format!("[{},{}]", i, v)).collect();
        format!("[{}]", v.join(","))
    };
    format!("[{},{},{}]", f(&r.streams[0]), f(&r.streams[1]), f(&r.streams[2]))
}

fn result_json(prop: &str, r: &RunResult, full: bool) -> String {
    let (class, msg) = match &r.violation {
        Some((c, m)) => (c.clone(), m.clone()),
        None => (String::new(), String::new()),
    };
    let mut s = format!(
        "{{\"prop\":\"{}\",\"seed\":{},\"class\":\"{}\",\"msg\":\"{}\",\"aborted\":{},\"steps\":{},\"switches\":{},\"tasks\":{},\"sim_ns\":{},\"hash\":\"{:016x}\",\"faults\":{},\"probes\":{},\"rec\":{}",
        prop, r.seed, esc(&class), esc(&msg), r.aborted, r.steps, r.switches, r.tasks, r.sim_ns, r.hash, map_json(&r.faults), map_json(&r.probes), rec_json(&r.rec)
    );
    if full {
        let ev: Vec<String> = r
            .events
            .iter()
            .map(|e| format!("\"#{} t={}ns task{} {} {} {} {}\"", e.step, e.now, e.task as i32, esc(e.tag), e.a, e.b, e.c))
            .collect();
        let notes: Vec<String> = r.notes.iter().map(|n| format!("\"{}\"", esc(n))).collect();
        let _ = write!(s, ",\"events\":[{}],\"notes\":[{}]", ev.join(","), notes.join(","));
    }
    s.push('}');
    s
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

pub fn main(props: &[Prop]) -> ! {
    crate::interpose::install();
    let args: Vec<String> = std::env::args().collect();
    let out = unsafe {
        // Protocol on a private descriptor; the code under test gets /dev/null.
        let out = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        let nul = raw::sys6(libc::SYS_open, b"/dev/null\0".as_ptr() as i64, libc::O_RDWR as i64, 0, 0, 0, 0) as i32;
        libc::dup2(nul, 1);
        if arg(&args, "--stderr").is_none() {
            libc::dup2(nul, 2);
        }
        if let Some(c) = arg(&args, "--cpu").and_then(|c| c.parse::<usize>().ok()) {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(c, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        }
        out
    };
    let pid = arg(&args, "--prop").unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == pid) else {
        raw::write_all(out, format!("unknown property {}\n", pid).as_bytes());
        std::process::exit(2)
    };
    let cap = arg(&args, "--cap").and_then(|x| x.parse().ok()).unwrap_or(p.cap);
    let wd: u64 = arg(&args, "--watchdog").and_then(|x| x.parse().ok()).unwrap_or(20);
    match args.get(1).map(|s| s.as_str()) {
        Some("seed") => {
            let seed = arg(&args, "--seed").unwrap().parse().unwrap();
            let r = run(seed, None, cap, true, wd, p.f);
            raw::write_all(out, (result_json(p.id, &r, true) + "\n").as_bytes());
            unsafe { libc::_exit(if r.violation.is_some() { 1 } else { 0 }) }
        }
        Some("replay") => {
            let f = arg(&args, "--file").unwrap();
            let text = std::fs::read_to_string(f).unwrap();
            let mut rep = Replay::default();
            let mut seed = 0;
            for l in text.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                match w.first() {
                    Some(&"seed") => seed = w[1].parse().unwrap(),
                    Some(&"d") => rep.streams[w[1].parse::<usize>().unwrap()].push((w[2].parse().unwrap(), w[3].parse().unwrap())),
                    _ => {}
                }
            }
            let r = run(seed, Some(&rep), cap, true, wd, p.f);
            raw::write_all(out, (result_json(p.id, &r, true) + "\n").as_bytes());
            unsafe { libc::_exit(if r.violation.is_some() { 1 } else { 0 }) }
        }
        Some("batch") => {
            let start: u64 = arg(&args, "--start").unwrap().parse().unwrap();
            let stride: u64 = arg(&args, "--stride").unwrap().parse().unwrap();
            let count: u64 = arg(&args, "--count").unwrap().parse().unwrap();
            let budget: u64 = arg(&args, "--budget-ms").unwrap().parse().unwrap();
            let hashes_path = arg(&args, "--hashes");
            let last_full = args.iter().any(|a| a == "--last-full");
            let progress = arg(&args, "--progress").map(|f| {
                let c = std::ffi::CString::new(f).unwrap();
                unsafe { raw::sys6(libc::SYS_open, c.as_ptr() as i64, (libc::O_RDWR | libc::O_CREAT) as i64, 0o644, 0, 0, 0) as i64 }
            });
            let mut hashes: HashSet<u64> = HashSet::new();
            let mut nontriv: HashSet<u64> = HashSet::new();
            let mut faults: BTreeMap<String, u64> = BTreeMap::new();
            let mut probes: BTreeMap<String, u64> = BTreeMap::new();
            let (mut runs, mut steps, mut switches, mut sim_ns, mut checked_runs, mut faulty) = (0u64, 0u64, 0u64, 0u128, 0u64, 0u64);
            let mut viol = 0;
            let (mut max_steps, mut max_gap) = (0u64, 0u64);
            let mut aborted = false;
            let t0 = raw::real_now();
            let mut i = 0;
            let mut all_hash: u64 = 0xcbf29ce484222325;
            while i < count {
                if (raw::real_now() - t0) / 1_000_000 > budget {
                    break;
                }
                let seed = start.wrapping_add(i * stride);
                i += 1;
                if let Some(fd) = progress {
                    let b = seed.to_le_bytes();
                    unsafe { raw::sys6(libc::SYS_pwrite64, fd, b.as_ptr() as i64, 8, 0, 0, 0) };
                }
                let full = last_full && i == count;
                let r = run(seed, None, cap, full, wd, p.f);
                runs += 1;
                steps += r.steps;
                max_steps = max_steps.max(r.steps);
                max_gap = max_gap.max(r.max_gap);
                switches += r.switches;
                sim_ns += r.sim_ns as u128;
                hashes.insert(r.hash);
                all_hash = (all_hash ^ r.hash).wrapping_mul(0x100000001b3);
                if r.probes.get("checks").copied().unwrap_or(0) > 0 {
                    checked_runs += 1;
                    if r.switches >= 2 {
                        nontriv.insert(r.hash);
                    }
                }
                if !r.faults.is_empty() {
                    faulty += 1;
                }
                for (k, v) in &r.faults {
                    *faults.entry(k.clone()).or_default() += v;
                }
                for (k, v) in &r.probes {
                    *probes.entry(k.clone()).or_default() += v;
                }
                if r.violation.is_some() {
                    viol += 1;
                    raw::write_all(out, format!("V {}\n", result_json(p.id, &r, full)).as_bytes());
                    if r.aborted {
                        aborted = true;
                        break;
                    }
                    if viol >= 20 {
                        break;
                    }
                }
            }
            if let Some(f) = hashes_path {
                let mut b: Vec<u8> = Vec::with_capacity(hashes.len() * 9);
                for h in &hashes {
                    b.extend_from_slice(&h.to_le_bytes());
                    b.push(nontriv.contains(h) as u8);
                }
                std::fs::write(f, b).unwrap();
            }
            let s = format!(
                "E {{\"runs\":{},\"steps\":{},\"switches\":{},\"sim_ns\":{},\"distinct\":{},\"checked_runs\":{},\"faulty_runs\":{},\"violations\":{},\"aborted\":{},\"all_hash\":\"{:016x}\",\"wall_ms\":{},\"max_steps\":{},\"max_gap\":{},\"faults\":{},\"probes\":{}}}\n",
                runs, steps, switches, sim_ns, hashes.len(), checked_runs, faulty, viol, aborted, all_hash, (raw::real_now() - t0) / 1_000_000, max_steps, max_gap, map_json(&faults), map_json(&probes)
            );
            raw::write_all(out, s.as_bytes());
            unsafe { libc::_exit(if viol > 0 { 1 } else { 0 }) }
        }
        _ => {
            raw::write_all(out, b"usage: batch|seed|replay --prop ID ...\n");
            std::process::exit(2)
        }
    }
}
