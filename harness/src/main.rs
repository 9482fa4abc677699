mod common;
mod driver;
mod gen;
mod memory;
mod model;
mod props;
mod supervisor;

use driver::{Property, Replay};

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;

macro_rules! properties {
    ($($p:path),* $(,)?) => {
        fn run(id: &str) -> Option<i32> {
            $(if id == <$p>::ID { return Some(driver::run::<$p>()); })*
            None
        }
        fn replay(r: &Replay, path: &str) -> Option<i32> {
            $(if r.property == <$p>::ID { return Some(driver::replay::<$p>(r, path)); })*
            None
        }
        fn shrink(r: &Replay, seconds: u64, fails: &dyn Fn(&Replay) -> bool) -> Option<Replay> {
            $(if r.property == <$p>::ID { return driver::shrink::<$p>(r, seconds, fails); })*
            None
        }
        fn ids() -> Vec<&'static str> {
            vec![$(<$p>::ID),*]
        }
    };
}

properties!(
    props::routing::C01,
    props::routing::C02,
    props::routing::C03,
    props::routing::C04,
    props::misuse::C05,
    props::multi::C06,
    props::multi::C07,
    props::history::C08,
    props::input::C09,
    props::serial::C10,
    props::serial::C11,
    props::serial::C12,
    props::files::C13,
    props::files::C14,
    props::files::C15,
    props::misuse::C16,
    props::extreme::C17,
    props::extreme::C18,
    props::threads::C19,
    props::sparse::C20,
    props::session::C21,
    props::platform::C22,
    props::input::C23,
    props::speed::C24,
    props::reading::C25,
    props::space::C26,
    props::logging::C27,
    props::debug::C28,
    props::equal::C29,
    props::input::C30,
    props::beside::C31,
);

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match args.as_slice() {
        ["list"] => {
            println!("{}", ids().join("\n"));
            0
        }
        // the check: runs everything in a child process, so that crashes are noticed
        ["check", id] => supervisor::check(id, &shrink),
        ["run", id] => {
            driver::install_panic_hook();
            let c = run(id);
            driver::remove_scratch();
            c.unwrap_or_else(|| {
                eprintln!("error: unknown property {}", id);
                2
            })
        }
        // parts of checks that need another process
        ["digests"] => {
            driver::install_panic_hook();
            props::serial::digests()
        }
        ["writer"] => props::files::writer(),
        ["replay", path] => supervisor::replay(path),
        ["replay-here", path] => {
            driver::install_panic_hook();
            let c = std::fs::read_to_string(path)
                .map_err(|e| e.to_string())
                .and_then(|s| serde_json::from_str::<Replay>(&s).map_err(|e| e.to_string()))
                .and_then(|r| replay(&r, path).ok_or("unknown property".to_string()));
            driver::remove_scratch();
            c.unwrap_or_else(|e| {
                eprintln!("error: {}: {}", path, e);
                2
            })
        }
        _ => {
            eprintln!("usage: fpv list | check ID | run ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
