//! Concrete search: runs the compiled crate on generated inputs and compares what it does with
//! what the property says.  One deterministic stream of cases per (property, seed, tier).
mod avros;
mod cfg;
mod exprs;
mod groups;
mod logs;
mod merges;
mod names;
mod plans;
mod prune;
mod reads;
mod schemas;
mod rt;
mod store;
mod table;
mod timeline;

use rt::Ctx;

fn main() {
    // hx <PROPERTY> <seed> <quick|thorough> <budget seconds> <out.json>
    let a: Vec<String> = std::env::args().collect();
    let mut cx = Ctx::new(a[2].parse().unwrap(), a[3] == "thorough", a[4].parse().unwrap());
    rt::quiet_panics();
    rt::start_guard(&a[5]);
    // a deep stack: the searched code recurses over generated inputs
    let out = a[5].clone();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match a[1].as_str() {
            "C01" => timeline::c01(&mut cx),
            "C02" => timeline::c02(&mut cx),
            "C03" => timeline::c03(&mut cx),
            "C07" => names::c07(&mut cx),
            "C08" => names::c08(&mut cx),
            "C04" => groups::c04(&mut cx),
            "C05" => reads::c05(&mut cx),
            "C06" => reads::c06(&mut cx),
            "C09" => logs::c09(&mut cx),
            "C10" => logs::c10(&mut cx),
            "C11" => merges::c11(&mut cx),
            "C12" => logs::c12(&mut cx),
            "C13" => prune::c13(&mut cx),
            "C14" => exprs::c14(&mut cx),
            "C16" => plans::c16(&mut cx),
            "C17" => cfg::c17(&mut cx),
            "C18" => store::c18(&mut cx),
            "C19" => avros::c19(&mut cx),
            "C20" => exprs::c20(&mut cx),
            "C21" => plans::c21(&mut cx),
            "C22" => schemas::c22(&mut cx),
            p => panic!("no search for {p}"),
        }
        std::fs::write(&out, cx.report()).unwrap();
    }).unwrap();
    h.join().unwrap();
}
