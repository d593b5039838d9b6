//! Reads lines `group module op args...`, runs the operation on the real crate, prints one line each.
//! An operation that doesn't come back in time is reported as such and abandoned.
use std::io::{BufRead, Write};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::Duration;

fn worker() -> (Sender<String>, Receiver<String>) {
    let (tx, rx) = channel::<String>();
    let (rtx, rrx) = channel::<String>();
    std::thread::spawn(move || {
        for line in rx {
            let w: Vec<&str> = line.split(' ').collect();
            let r = std::panic::catch_unwind(|| fxroots::run::dispatch(w[0], w[1], w[2], &w[3..]));
            let s = match r {
                Ok(s) => s,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("panic {}", m.replace('\n', " "))
                }
            };
            if rtx.send(s).is_err() { return; }
        }
    });
    (tx, rrx)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let (mut tx, mut rx) = worker();
    let mut lost = 0;
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if lost >= 6 { writeln!(out, "skipped").unwrap(); continue; }
        let limit = if line.starts_with("c21 ") { 1 } else { 20 };
        tx.send(line).unwrap();
        match rx.recv_timeout(Duration::from_secs(limit)) {
            Ok(s) => writeln!(out, "{}", s).unwrap(),
            Err(_) => {
                writeln!(out, "panic no answer").unwrap();
                lost += if limit > 1 { 3 } else { 1 };
                let n = worker();
                tx = n.0;
                rx = n.1;
            }
        }
    }
    out.flush().unwrap();
    std::process::exit(0);
}
