//! Conformance driver: executes sessions against the real crate and records them.
mod gen;
mod ops;
mod prof;
mod sess;
mod wire;

use sess::*;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> String {
        self.0.get(k).unwrap_or_else(|| panic!("missing --{}", k)).clone()
    }
    fn opt(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let mode = it.next().expect("mode");
    let mut m = HashMap::new();
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        m.insert(k, v);
    }
    let a = Args(m);
    match mode.as_str() {
        "run" => parent(&a),
        "child" => {
            std::panic::set_hook(Box::new(|_| {}));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || child(&a)).unwrap();
            if h.join().is_err() {
                std::process::exit(77);
            }
        }
        _ => panic!("mode"),
    }
}

/// One shard: roots w, w+W, w+2W, ... of the workload.
fn child(a: &Args) {
    let w = a.num("w", 0);
    let nw = a.num("W", 1);
    let out = a.get("out");
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
    let alone = a.num("alone", 0) == 1;
    let mut line = if alone {
        0
    } else {
        let mut s = String::new();
        std::fs::File::open(&out).unwrap().read_to_string(&mut s).unwrap();
        s.lines().count()
    };
    f.seek(SeekFrom::End(0)).unwrap();
    let mut s = Sess::new();
    s.cold = alone;
    s.progress = Some(std::fs::OpenOptions::new().create(true).write(true).open(format!("{}.progress", out)).unwrap());
    for item in a.opt("skip", "").split(',').filter(|x| !x.is_empty()) {
        let p: Vec<&str> = item.split(':').collect();
        s.skip.insert((p[0].parse().unwrap(), p[1].parse().unwrap()), p[2].to_string());
    }
    let seed = a.num("seed", 1);
    let prop = a.get("prop");
    let roots = a.num("roots", 100);
    let only = a.opt("only", "");
    let replay = a.opt("replay", "");
    // a process of its own for one root does not read programs it does not run
    let known = a.num("programs", u64::MAX);
    let skipread = alone && known != u64::MAX && only.parse::<u64>().unwrap() >= known;
    let tries = if replay.is_empty() || skipread { vec![] } else { prof::read_programs(&replay) };
    let ntries = if skipread { known } else { tries.len() as u64 };
    let from = a.num("from", 0);
    let total = ntries + roots;
    let deadline = a.num("deadline_ms", 0);
    let t0 = Instant::now();
    let mut i = w;
    if !only.is_empty() {
        i = only.parse().unwrap();
    }
    while i < total {
        if i >= from {
            if deadline > 0 && t0.elapsed() > Duration::from_millis(deadline) {
                break;
            }
            if a.num("cold", 0) == 1 {
                let mut c = Command::new(std::env::current_exe().unwrap());
                c.arg("child");
                for k in ["seed", "prop", "roots", "replay", "deep", "w", "W", "out"] {
                    if let Some(v) = a.0.get(k) {
                        c.arg(format!("--{}", k)).arg(v);
                    }
                }
                c.arg("--only").arg(i.to_string()).arg("--alone").arg("1").arg("--programs").arg(ntries.to_string());
                c.stderr(std::process::Stdio::null());
                let mut p = c.spawn().unwrap();
                let t = Instant::now();
                while p.try_wait().unwrap().is_none() {
                    if t.elapsed() > Duration::from_secs(15) {
                        let _ = p.kill();
                        let _ = p.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
                if !only.is_empty() {
                    break;
                }
                i += nw;
                continue;
            }
            let br = s.begin(i);
            if (i as usize) < tries.len() {
                prof::replay(&mut s, br, &tries[i as usize], &prop, seed);
            } else {
                prof::random(&mut s, br, &prop, seed, i - ntries, a.num("deep", 0) == 1);
            }
            s.flush(&mut f, &mut line);
        }
        if !only.is_empty() {
            break;
        }
        i += nw;
    }
    if !alone {
        std::fs::write(format!("{}.done", out), format!("{}", line)).unwrap();
    }
}

struct Kid {
    proc: Child,
    w: u64,
    out: String,
    last: [u8; 16],
    since: Instant,
    skip: Vec<String>,
    from: u64,
    done: bool,
}

fn spawn(a: &Args, w: u64, nw: u64, out: &str, skip: &Vec<String>, from: u64) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("child");
    for k in ["seed", "prop", "roots", "replay", "deep", "deadline_ms", "only", "cold"] {
        if let Some(v) = a.0.get(k) {
            c.arg(format!("--{}", k)).arg(v);
        }
    }
    c.arg("--w").arg(w.to_string()).arg("--W").arg(nw.to_string()).arg("--out").arg(out);
    c.arg("--skip").arg(skip.join(",")).arg("--from").arg(from.to_string());
    c.stderr(std::process::Stdio::null());
    c.spawn().unwrap()
}

fn progress(out: &str) -> [u8; 16] {
    let mut b = [0u8; 16];
    if let Ok(mut f) = std::fs::File::open(format!("{}.progress", out)) {
        let _ = f.read_exact(&mut b);
    }
    b
}

/// Spawns the shards, and turns crashes and hangs of the code under test into events.
fn parent(a: &Args) {
    let nw = a.num("W", 8);
    let dir = a.get("dir");
    let limit = Duration::from_secs(a.num("hang_s", 20));
    let mut kids: Vec<Kid> = (0..nw)
        .map(|w| {
            let out = format!("{}/shard{}.ndjson", dir, w);
            Kid { proc: spawn(a, w, nw, &out, &vec![], 0), w, out, last: [0; 16], since: Instant::now(), skip: vec![], from: 0, done: false }
        })
        .collect();
    let mut crashes = 0;
    while kids.iter().any(|k| !k.done) {
        std::thread::sleep(Duration::from_millis(50));
        for k in kids.iter_mut() {
            if k.done {
                continue;
            }
            let mut died: Option<&str> = None;
            match k.proc.try_wait().unwrap() {
                Some(st) => {
                    if st.success() {
                        k.done = true;
                    } else {
                        if st.code() == Some(77) {
                            eprintln!("harness failure in shard {}", k.w);
                            std::process::exit(2);
                        }
                        died = Some("crash");
                    }
                }
                None => {
                    let p = progress(&k.out);
                    if p != k.last {
                        k.last = p;
                        k.since = Instant::now();
                    } else if k.since.elapsed() > limit {
                        let _ = k.proc.kill();
                        let _ = k.proc.wait();
                        died = Some("hang");
                    }
                }
            }
            if let Some(why) = died {
                crashes += 1;
                let p = progress(&k.out);
                let root = u64::from_le_bytes(p[..8].try_into().unwrap());
                let step = u64::from_le_bytes(p[8..].try_into().unwrap());
                let id = format!("{}:{}:{}", root, step, why);
                if k.skip.contains(&id) {
                    eprintln!("shard {} dies outside the code under test at {}", k.w, id);
                    std::process::exit(2);
                }
                k.skip.push(id);
                let hangs = k.skip.iter().filter(|x| x.ends_with("hang")).count();
                if k.skip.len() > 12 || hangs > 3 {
                    // enough: give up the rest of this shard
                    k.done = true;
                    continue;
                }
                k.from = root;
                k.last = [0; 16];
                k.since = Instant::now();
                k.proc = spawn(a, k.w, nw, &k.out, &k.skip, k.from);
            }
        }
    }
    println!("crashes {}", crashes);
}
