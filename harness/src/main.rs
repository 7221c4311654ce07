#[macro_use]
mod engine;
mod checks;
mod c_sexp;
mod fp;
mod dict;
mod gen;
mod ly;
mod sx;
mod sch;
mod sym;
mod c_line;
mod c_geo;
mod c_edit;
mod c_err;
mod c_klc;
mod c_file;
mod c_total;
mod c_bad;
mod c_make;

use engine::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

fn find(id: &str) -> &'static Check {
    match checks::CHECKS.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn known_sigs(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", VERIF)) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={} sig=", id)) {
                let mut it = rest.splitn(2, ' ');
                let sig = it.next().unwrap_or("").to_string();
                v.push((sig, it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn quiet_stdout() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(fd, 1);
        libc::close(fd);
    }
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn read_choices(p: &Path) -> Vec<u64> {
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect()
}

fn big_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

enum Ended {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run_child(args: &[String], limit: Duration) -> Ended {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            if let Some(s) = st.signal() {
                return Ended::Signal(s);
            }
            return Ended::Code(st.code().unwrap_or(2));
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ended::Timeout;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn sv(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(|x| x.as_str()).unwrap_or("");
    match mode {
        "list" => {
            for c in checks::CHECKS {
                println!("{}\t{}", c.id, c.assumptions);
            }
        }
        "run" => std::process::exit(parent(&args[2], args.get(3).map(|x| x.as_str()).unwrap_or("quick"))),
        "child" => {
            // child <id> <seed> <cases> <scratch>
            limit_memory();
            quiet_stdout();
            install_hook();
            let c = find(&args[2]);
            let scratch = PathBuf::from(&args[5]);
            let a = RunArgs {
                seed: args[3].parse().unwrap(),
                cases: args[4].parse().unwrap(),
                scratch: scratch.clone(),
                workers: 8,
                known: known_sigs(c.id).into_iter().map(|x| x.0).collect(),
                case_limit: Duration::from_secs(30),
            };
            checks::prepare(c.id, &scratch);
            let rep = search(c, &a);
            write_report(&scratch.join("report"), &rep);
        }
        "oneidx" | "one" => {
            // oneidx <id> <seed> <idx> <scratch> <sink>   |   one <id> <choices> <scratch> <sink>
            limit_memory();
            quiet_stdout();
            install_hook();
            let c = find(&args[2]);
            let (mut src, scratch, sink) = if mode == "oneidx" {
                let seed: u64 = args[3].parse().unwrap();
                let idx: u64 = args[4].parse().unwrap();
                (Src::seeded(case_seed(seed, c.id, idx)), args[5].clone(), args[6].clone())
            } else {
                (Src::replay(read_choices(Path::new(&args[3]))), args[4].clone(), args[5].clone())
            };
            src.sink = std::fs::File::create(&sink).ok();
            checks::prepare(c.id, Path::new(&scratch));
            let f = c.f;
            let ok = big_stack(move || {
                let w = PathBuf::from(scratch).join("w0");
                let _ = std::fs::create_dir_all(&w);
                let mut cx = Cx { scratch: w, ..Default::default() };
                run_case(f, &mut src, &mut cx).is_ok()
            });
            std::process::exit(if ok { 0 } else { 10 });
        }
        "literals" => print!("{}", dict::listing()),
        "limited" => c_file::limited_main(&args[2..]),
        "replay" => {
            install_hook();
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            dict::set_from_replay(&text);
            let mut id = String::new();
            let mut v = vec![];
            for l in text.lines() {
                if let Some(x) = l.strip_prefix("property: ") {
                    id = x.into();
                }
                if let Some(x) = l.strip_prefix("choices: ") {
                    v = x.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    break;
                }
            }
            let c = find(&id);
            let scratch = scratch_dir(&id);
            checks::prepare(c.id, &scratch);
            let f = c.f;
            let w = scratch.join("w0");
            std::fs::create_dir_all(&w).unwrap();
            let r = big_stack(move || {
                let (cx, r) = render_case(f, &v, &w);
                (cx.text, r)
            });
            let _ = std::fs::remove_dir_all(&scratch);
            println!("{}", r.0);
            match r.1 {
                Ok(()) => println!("replay: holds"),
                Err(e) => {
                    println!("replay: FAILS [{}] {}", e.sig, e.msg);
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: harness run <id> [quick|thorough] | replay <file> | list");
            std::process::exit(2)
        }
    }
}

fn scratch_dir(id: &str) -> PathBuf {
    let p = PathBuf::from(format!("{}/target/scratch/{}-{}", VERIF, id, std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

fn write_replay(c: &Check, rec: &[u64], e: &Fail, scratch: &Path, render: bool) -> PathBuf {
    let dir = PathBuf::from(format!("{}/replays", VERIF));
    let _ = std::fs::create_dir_all(&dir);
    let h = rec.iter().fold(7, |h, x| fnv(h, &x.to_le_bytes()));
    let p = dir.join(format!("{}-{:08x}.txt", c.id, h as u32));
    let text = if render {
        let f = c.f;
        let rec2 = rec.to_vec();
        let w = scratch.join("w0");
        let _ = std::fs::create_dir_all(&w);
        checks::prepare(c.id, scratch);
        install_hook();
        big_stack(move || render_case(f, &rec2, &w).0.text)
    } else {
        "(not rendered: the case ends the process)".into()
    };
    let s = format!(
        "property: {}\nchoices: {}\nsignature: {}\nmessage: {}\nreplay with: bash /verif/run.sh replay <this file>\n--- case ---\n{}\n{}{}",
        c.id,
        rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        e.sig,
        e.msg,
        text,
        dict::MARK,
        dict::for_replay()
    );
    std::fs::write(&p, s).expect("replay file");
    p
}

fn parent(id: &str, tier: &str) -> i32 {
    let c = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let cases = ((if tier == "thorough" { c.thorough } else { c.quick }) as f64 * scale) as u64;
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 600 });
    let scratch = scratch_dir(id);
    let sc = scratch.to_str().unwrap().to_string();
    let t0 = Instant::now();
    let _ = std::fs::remove_file(format!("{}/evidence/{}.json", VERIF, id));
    let ended = run_child(&sv(&["child", id, &seed.to_string(), &cases.to_string(), &sc]), limit);
    let mut rep = Report::default();
    let mut code = 0;
    let mut replay: Option<PathBuf> = None;
    let mut bad: Option<Fail> = None;
    let mut incomplete = false;
    match ended {
        Ended::Code(0) => match read_report(&scratch.join("report")) {
            Some(r) => rep = r,
            None => {
                eprintln!("no report from worker");
                incomplete = true;
            }
        },
        Ended::Timeout => {
            eprintln!("time budget used up");
            incomplete = true;
        }
        Ended::Code(n) if n != 77 => {
            eprintln!("worker ended with status {}", n);
            incomplete = true;
        }
        ref e => {
            // crash or hang: find the case again, each candidate alone in a process
            let hang = matches!(e, Ended::Code(77));
            let mut idxs: Vec<u64> = vec![];
            if hang {
                if let Ok(s) = std::fs::read_to_string(scratch.join("hang")) {
                    idxs.extend(s.trim().parse::<u64>().ok());
                }
            } else if let Ok(b) = std::fs::read(scratch.join("slots")) {
                for ch in b.chunks(8) {
                    if ch.len() == 8 {
                        let mut a = [0u8; 8];
                        a.copy_from_slice(ch);
                        let v = u64::from_le_bytes(a);
                        if v != u64::MAX {
                            idxs.push(v)
                        }
                    }
                }
            }
            idxs.sort();
            let sink = scratch.join("sink").to_str().unwrap().to_string();
            let chf = scratch.join("choices").to_str().unwrap().to_string();
            let one_limit = Duration::from_secs(60);
            for i in idxs {
                let r = run_child(&sv(&["oneidx", id, &seed.to_string(), &i.to_string(), &sc, &sink]), one_limit);
                match r {
                    Ended::Signal(s) => {
                        let rec = read_choices(Path::new(&sink));
                        let f = Fail { sig: "crash".into(), msg: format!("process ended by signal {}", s) };
                        let try_it = |v: &[u64]| -> Option<(Vec<u64>, Fail)> {
                            let t = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                            std::fs::write(&chf, t).ok()?;
                            match run_child(&sv(&["one", id, &chf, &sc, &sink]), Duration::from_secs(10)) {
                                Ended::Signal(_) => {
                                    let mut r = read_choices(Path::new(&sink));
                                    while r.last() == Some(&0) {
                                        r.pop();
                                    }
                                    Some((r, f.clone()))
                                }
                                _ => None,
                            }
                        };
                        let (rec, _) = shrink_with(rec, Instant::now() + Duration::from_secs(40), &try_it);
                        replay = Some(write_replay(c, &rec, &f, &scratch, false));
                        bad = Some(f);
                        break;
                    }
                    Ended::Timeout if c.total => {
                        let rec = read_choices(Path::new(&sink));
                        let f = Fail { sig: "hang".into(), msg: "no answer within 60 s".into() };
                        replay = Some(write_replay(c, &rec, &f, &scratch, false));
                        bad = Some(f);
                        break;
                    }
                    _ => (),
                }
            }
            if bad.is_none() {
                eprintln!("worker died or hung, not attributable to one case");
                incomplete = true;
            }
        }
    }
    if let Some((rec, e)) = rep.failure.take() {
        replay = Some(write_replay(c, &rec, &e, &scratch, true));
        bad = Some(e);
    }
    let wall = t0.elapsed().as_secs_f64();
    for (sig, what) in known_sigs(id) {
        let n = rep.known_hits.get(&sig).cloned().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} ({} cases hit it)", id, what, n);
    }
    if let (Some(e), Some(p)) = (bad.as_ref(), replay.as_ref()) {
        let m: String = e.msg.chars().take(1500).collect();
        println!("{}: [{}] {}", id, e.sig, m);
        println!("VIOLATION property={} replay={}", id, p.display());
        code = 1;
    } else if incomplete {
        code = 2;
    } else if rep.distinct_nontrivial < 2 {
        eprintln!("generator produced no non-trivial cases");
        code = 2;
    }
    // evidence
    let tags = rep.tags.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(", ");
    let rule = if tags.is_empty() { c.rule.to_string() } else { format!("{} [features met: {}]", c.rule, tags) };
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json_str(id),
        json_str(if tier == "thorough" { "thorough" } else { "quick" }),
        seed,
        json_str(if id == "C14" { "fault_enumeration" } else { "exploration" }),
        rep.evals,
        rep.distinct_nontrivial,
        json_str(&rule),
        rep.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        json_str(c.assumptions),
        if bad.is_some() { 1 } else { 0 },
        wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", VERIF));
    if std::fs::write(format!("{}/evidence/{}.json", VERIF, id), ev).is_err() {
        code = 2;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s{}",
        id,
        tier,
        rep.evals,
        rep.distinct_nontrivial,
        wall,
        if code == 0 { "" } else { " (not passed)" }
    );
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
