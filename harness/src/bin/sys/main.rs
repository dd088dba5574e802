//! Monitors across threads, processes and histories: C23, C24.
#[macro_use]
extern crate strict_encoding;

mod entropy;
mod freeze;
mod jobs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("--jobs") => jobs::child(&a[2..]),
        Some("--entropy") => entropy::child(&a[2..]),
        _ => vmodel::runner::main(vec![jobs::c23(), entropy::c24()]),
    }
}
