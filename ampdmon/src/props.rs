//! What is decided here, by what, and how much of it.
use crate::runner::Prop;

pub fn table() -> &'static [Prop] {
    PROPS
}
const NODE: &[&str] = &[
    "the chain's node is played by the monitor behind the client's transport; it may fail, lag and show anything, but a block it once called final stays",
    "third-party crates that are not in the offline cache are replaced by stand-ins with the same interface and encodings (ampdmon/crates)",
];
static PROPS: &[Prop] = &[
    Prop {
        id: "C41",
        drivers: &[("evm", crate::evm::drive, 1)],
        quick: 20000,
        thorough: 400000,
        mins: &[("present", 5000), ("absent", 50000), ("node silent", 1000), ("unreadable", 3000)],
        rule: "random histories of message polls started by the real voting verifier, handled by the real EVM handler, finalizer and receipt verifier over a played node with pending, unfinal, final, foreign, near-equal and unreadable logs and failing requests; a situation is an expected verdict with its kind of item, chain, index, finality distance and poll size",
        assumes: NODE,
    },
    Prop {
        id: "C42",
        drivers: &[("evm", crate::evm::drive, 1)],
        quick: 20000,
        thorough: 400000,
        mins: &[("present set", 1000), ("absent set", 5000)],
        rule: "as C41 for worker sets: exact, reordered, one-off and foreign operator sets; a situation is an expected verdict with its readability, chain and set",
        assumes: NODE,
    },
    Prop {
        id: "C43",
        drivers: &[("sui", crate::sui::drive, 1)],
        quick: 20000,
        thorough: 400000,
        mins: &[("present", 7000), ("present set", 1000), ("absent", 50000), ("node silent", 3000)],
        rule: "random histories of Sui polls started by the real voting verifier, handled by the real Sui handlers and verifier over a played node; a situation is an expected verdict with its kind of event, package, sequence number and fields",
        assumes: NODE,
    },
    Prop {
        id: "C44",
        drivers: &[("evm", crate::evm::drive, 1), ("sui", crate::sui::drive, 1)],
        quick: 20000,
        thorough: 400000,
        mins: &[("votes", 30000), ("ignored", 50000), ("unreadable", 1500)],
        rule: "events of the own and of other verifiers, of hostile contracts imitating them in other formats, and of other kinds, at all heights, to every voting handler; a situation is the handler with who emitted the event, participation, expiry and outcome",
        assumes: NODE,
    },
    Prop {
        id: "C45",
        drivers: &[("sign", crate::sign::drive, 1)],
        quick: 3000,
        thorough: 100000,
        mins: &[("signed", 1500), ("not mine", 700), ("passed over", 2000), ("tofnd fails", 700), ("foreign key", 500)],
        rule: "signing sessions started by the real multisig contract with random sets of workers and keys, and hostile look-alikes, given to the real handler and tofnd client; a situation is who emitted the event, membership, key kinds, expiry and tofnd's mood",
        assumes: NODE,
    },
    Prop {
        id: "C46",
        drivers: &[("queue", crate::queue::drive, 1)],
        quick: 20000,
        thorough: 400000,
        mins: &[("sent", 80000), ("batches of one", 40000), ("batches of several", 12000), ("closed", 6000), ("failed", 1000), ("without estimate", 7000)],
        rule: "random arrivals from several clients over virtual time with random gas, limits, capacity, intervals, slow and failing estimates and broadcasts; a situation is the shape of the batches with why they were sent and how the run ended",
        assumes: NODE,
    },
    Prop {
        id: "C48",
        drivers: &[("blocks", crate::blocks::drive, 1)],
        quick: 5000,
        thorough: 200000,
        mins: &[("events", 150000), ("crashes", 700), ("damaged files", 500), ("handler failures", 150), ("kept up", 2000), ("node failures", 800), ("orderly ends", 4000)],
        rule: "several runs on one state file over a played node in virtual time, ended by a crash, in order, by a handler or by the node; a situation is how a handler's run began and ended, how far behind it was, and what the node did",
        assumes: NODE,
    },
    Prop {
        id: "C47",
        drivers: &[("net", crate::net::drive, 1)],
        quick: 10000,
        thorough: 200000,
        mins: &[("confirmed", 4000), ("executed and failed", 1000), ("unconfirmed", 3000), ("not sent", 3000), ("estimates", 3000)],
        rule: "sequences of broadcasts and estimates by the real client over a played chain and tofnd with failures at every step; a situation is the outcome with message count, queries needed and allowed, tofnd's mood, adjustment, price and magnitude of gas",
        assumes: NODE,
    },
    Prop {
        id: "C49",
        drivers: &[("whole", crate::whole::drive, 1)],
        quick: 1000,
        thorough: 40000,
        mins: &[("commands", 700), ("commands that fail", 250), ("crashes", 150), ("orderly runs", 800), ("runs ended by the node", 150), ("sessions looked at", 800), ("signatures", 700)],
        rule: "sequences of the set-up commands and runs of the whole daemon, stopped by a signal, killed or failed by the node, on one state file over a played node and tofnd, with sessions of a real multisig contract; a situation is a command with what failed, or a run with how it ended, handlers, sessions and signatures",
        assumes: NODE,
    },
];
