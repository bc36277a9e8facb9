//! Monitors over the off-chain daemon (ampd): its real code, with network and tofnd played by the monitor.
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/runner.rs"]
mod runner;

mod evm;
#[path = "../../harness/src/gen.rs"]
mod gen;
mod net;
mod props;
mod rig;
mod blocks;
mod queue;
mod sign;
mod sui;
mod whole;

/// what the shared runner needs of the contract harness
mod world {
    pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    }
}

fn main() {
    runner::main();
}
