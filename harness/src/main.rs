//! Test driver around the real dyon crate (path dependency on /repo).
//!
//! `dynh pool JOBS OUT [--workers N] [--timeout MS]`: runs every job (one JSON
//!    object per line) in a worker child process, isolating panics, hangs and
//!    crashes, and writes one JSON result per job.
//! `dynh worker`: reads jobs on stdin, answers on stdout (lines that start with MARK).
//! `dynh one FILE`: runs one .dyon file and prints its recorded behaviour.

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::Duration;

mod conv;
mod exec;

pub const MARK: &str = "\u{1}RES ";

struct Worker {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
}

fn start_worker() -> Worker {
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .arg("worker")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(stdout);
        let mut buf: Vec<u8> = vec![];
        loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    let s = String::from_utf8_lossy(&buf).to_string();
                    if let Some(p) = s.find(MARK) {
                        if tx.send(s[p + MARK.len()..].trim_end().to_string()).is_err() {
                            break;
                        }
                    }
                }
            }
        }
    });
    Worker { child, stdin, lines: rx }
}

fn pool(jobs: &str, out: &str, workers: usize, timeout: u64) {
    let text = std::fs::read_to_string(jobs).expect("jobs file");
    let lines: Arc<Vec<String>> = Arc::new(text.lines().filter(|l| !l.trim().is_empty()).map(|l| l.to_string()).collect());
    let n = lines.len();
    let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    let next = Arc::new(AtomicUsize::new(0));
    let lost = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for _ in 0..workers {
        let lines = lines.clone();
        let results = results.clone();
        let next = next.clone();
        let lost = lost.clone();
        hs.push(std::thread::spawn(move || {
            let mut w = start_worker();
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() {
                    break;
                }
                let id = serde_json::from_str::<Value>(&lines[i]).ok().map(|v| v["id"].clone()).unwrap_or(Value::Null);
                // After a few hangs there is nothing more to learn.
                if lost.load(Ordering::SeqCst) >= 8 {
                    results.lock().unwrap()[i] = Some(json!({"id": id, "load": "skip", "end": "skip", "ev": [], "msg": ""}).to_string());
                    continue;
                }
                let start = std::time::Instant::now();
                let sent = w.stdin.write_all(lines[i].as_bytes()).and_then(|_| w.stdin.write_all(b"\n")).and_then(|_| w.stdin.flush());
                let res = if sent.is_err() {
                    Err("crash")
                } else {
                    match w.lines.recv_timeout(Duration::from_millis(timeout)) {
                        Ok(s) => Ok(s),
                        Err(RecvTimeoutError::Timeout) => Err("timeout"),
                        Err(RecvTimeoutError::Disconnected) => Err("crash"),
                    }
                };
                let s = match res {
                    Ok(s) => s,
                    Err(kind) => {
                        lost.fetch_add(1, Ordering::SeqCst);
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w = start_worker();
                        json!({"id": id, "load": "ok", "end": kind, "ev": [], "msg": kind}).to_string()
                    }
                };
                // The time is last, and only there to find slow programs.
                let ms = start.elapsed().as_millis();
                let s = if s.ends_with('}') { format!("{},\"ms\":{}}}", &s[..s.len() - 1], ms) } else { s };
                results.lock().unwrap()[i] = Some(s);
            }
            drop(w.stdin);
            let _ = w.child.kill();
            let _ = w.child.wait();
        }));
    }
    for h in hs {
        h.join().expect("pool thread");
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("out file"));
    for r in results.lock().unwrap().iter() {
        writeln!(f, "{}", r.as_ref().expect("result")).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            std::panic::set_hook(Box::new(|_| {}));
            let stdin = std::io::stdin();
            for line in stdin.lock().lines() {
                let line = match line {
                    Ok(l) => l,
                    Err(_) => break,
                };
                let res = exec::run_job(&line);
                let out = std::io::stdout();
                let mut o = out.lock();
                let _ = writeln!(o, "\n{}{}", MARK, res);
                let _ = o.flush();
            }
            // Do not wait for threads a job left behind.
            std::process::exit(0);
        }
        Some("pool") => {
            let mut workers = 8;
            let mut timeout = 20000;
            let mut i = 4;
            while i + 1 < args.len() {
                match args[i].as_str() {
                    "--workers" => workers = args[i + 1].parse().unwrap(),
                    "--timeout" => timeout = args[i + 1].parse().unwrap(),
                    _ => {}
                }
                i += 2;
            }
            pool(&args[2], &args[3], workers, timeout);
        }
        Some("one") => {
            let src = std::fs::read_to_string(&args[2]).expect("file");
            let v: Value = serde_json::from_str(&exec::run_job(&json!({"id": 0, "src": src}).to_string())).unwrap();
            println!("load={} end={}", v["load"], v["end"]);
            for e in v["ev"].as_array().unwrap() {
                println!("  {}", e);
            }
            println!("msg={}", v["msg"].as_str().unwrap_or(""));
            println!("{}", json!({"st": v["st"], "leak": v["leak"]}));
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: dynh pool|worker|one");
            std::process::exit(2);
        }
    }
}
