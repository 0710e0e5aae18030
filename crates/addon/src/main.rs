//! One process that instruments what it is handed, line by line.
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        if writeln!(out, "{}", xform::call(&line)).is_err() { return; }
    }
}
