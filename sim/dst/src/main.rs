//! The deterministic simulator's command line. See DESIGN.md.
#![allow(static_mut_refs)]
mod engine;
mod exec;
mod gen;
mod hist;
mod prog;
mod props;
mod shrink;
mod types;
mod wicked;

#[global_allocator]
static ALLOC: simstd::rt::arena::SimAlloc = simstd::rt::arena::SimAlloc;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("search") => engine::search(&a[1..]),
        Some("replay") => engine::replay(&a[1..]),
        Some("pinned") => engine::pinned(&a[1..]),
        Some("profile") => engine::profile(&a[1..]),
        Some("classes") => {
            let p = props::find(&a[1]).expect("unknown property");
            println!("{}", props::FATAL.iter().chain(p.classes).copied().collect::<Vec<_>>().join(" "));
            0
        }
        Some("selftest") => engine::selftest(&a[1..]),
        _ => {
            eprintln!("usage: dst search|replay|pinned|profile|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
