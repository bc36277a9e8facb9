mod aggverifier;
mod batching;
mod core;
mod e2e;
mod gateway;
mod gen;
mod keys;
mod multisig;
mod nexus;
mod props;
mod prover;
mod registry;
mod rewards;
mod router;
mod runner;
mod types;
mod voting;
mod world;

fn main() {
    runner::main();
}
