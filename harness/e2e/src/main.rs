//! The supervisor of all checks, and the worker of those that watch the real program from outside.
mod disk;
mod hostile;
mod meta;
mod sched;
mod table;
mod sim;
mod trackers;
mod wire;

use kit::runner;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--worker") {
        return runner::worker(table::CASES);
    }
    let me = std::env::current_exe().unwrap();
    // .build/target/debug/vc
    let root = me.ancestors().nth(4).unwrap().to_str().unwrap().to_string();
    let scratch = format!("/tmp/rbv-{}", std::process::id());
    std::env::set_var("VSCRATCH", &scratch);
    runner::main(table::checks(), &root, &scratch)
}
