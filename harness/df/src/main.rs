//! Concrete search through DataFusion: runs queries on the compiled table provider and on the
//! same rows held in memory, and compares.
#[allow(dead_code)]
#[path = "../../../harness/core/src/rt.rs"]
mod rt;
#[allow(dead_code)]
#[path = "../../../harness/core/src/table.rs"]
mod table;
mod df;

use rt::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut cx = Ctx::new(a[2].parse().unwrap(), a[3] == "thorough", a[4].parse().unwrap());
    rt::quiet_panics();
    rt::start_guard(&a[5]);
    let out = a[5].clone();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match a[1].as_str() {
            "C15" => df::c15(&mut cx),
            p => panic!("no search for {p}"),
        }
        std::fs::write(&out, cx.report()).unwrap();
    }).unwrap();
    h.join().unwrap();
}
