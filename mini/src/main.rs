//! The answering side of C34: a build of the crate with other features.
mod serve;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for line in std::io::stdin().lock().lines() {
        let q: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        writeln!(out, "{}", serve::answer_all(&q)).unwrap();
        out.flush().unwrap();
    }
}
