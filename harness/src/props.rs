//! Which drivers decide which property, how much is run, and how little would not be a verdict.
use crate::runner::Prop;

const ROUTER_RULE: &str = "random histories of registry operations and routed batches against the real router with stub gateways; a situation is non-trivial when it differs in sender role, frozen/registered/own-source pattern of the batch, decision and number of destinations";

const GW_RULE: &str = "random histories of route/verify/deliver/read against the real gateway with a stub router and a stub verifier whose statuses, answer order and availability change between calls; a situation differs in the verified/unverified pattern of the batch, duplicates, failures and outcome";
const GW_ASSUME: &[&str] = &["the verifier's answer is keyed by message id; ids missing from it count as not verified", "counterparties are stubs"];

const VV_RULE: &str = "random histories of verification requests, ballots, poll endings, worker churn and block heights (biased to expiry boundaries) against the real voting verifier; a situation differs in decision, ballot/poll shape or verifier storage state";
const VV_ASSUME: &[&str] = &["service registry and rewards are stubs in this driver; every active worker has weight one, as the registry defines it", "messages submitted in one request are distinct"];

const SR_RULE: &str = "random histories of registration, authorisation, chain support, bonding, unbonding and claims over several services and denominations, with time driven to the nanosecond around unbonding deadlines; distinct situations are distinct stake/authorisation/support configurations";
const SR_ASSUME: &[&str] = &["bank semantics as modelled by cw-multi-test", "tokens sent outside of a bond request belong to nobody"];

const RW_RULE: &str = "random histories of participation (also late, shared event ids), deposits, distributions (bringing pools to just enough or just short), parameter updates and heights biased to epoch boundaries, each ending with a full payout; a situation differs in the tallies, thresholds and limits of a distribution and its outcome";
const RW_ASSUME: &[&str] = &["a calling contract reports a worker at most once per event", "bank semantics as modelled by cw-multi-test", "epoch durations below 2^41"];

const MS_RULE: &str = "random histories of key and worker set registration, caller authorisation, session starts and signatures of many kinds (proper, high-s, replayed, foreign, corrupted, wrong length) with heights driven to the ends of grace periods; a situation differs in signature kind, session progress, weights and threshold";
const MS_ASSUME: &[&str] = &["rewards is a stub; k256 and ed25519-zebra used directly are the signature oracle", "registered worker sets file each signer under its own address"];

const PR_RULE: &str = "random histories of messages, proof requests (also repeated, permuted, overlapping, unknown, invalid), worker and key churn, rotations, confirmations (also of near-identical sets) and signatures (also high-s) against the real prover over the real gateway and multisig, decoded as the destination gateway would; a situation differs in decision, batch, set sizes and difference, signers";
const PR_ASSUME: &[&str] = &["service registry, voting verifier and rewards are stubs", "a request names each message once", "ethabi, bcs and k256 used directly are the decoding oracle", "destination chain ids below 2^64 for the bcs encoding"];

static TABLE: &[Prop] = &[
    Prop {
        id: "C01",
        drivers: &[("e2e", crate::e2e::run, 1)],
        quick: 10000,
        thorough: 120000,
        mins: &[("delivered", 2000), ("observe.available", 5000), ("votes.reached_quorum", 2000), ("votes.fell_short", 500), ("route.mixed", 500), ("attack", 5000)],
        rule: "random histories of verification requests, split and hostile votes, poll endings, routing of mixed batches, forged twins of real messages, attacks on router and gateways, worker churn, freezes and gateway upgrades over the wired contracts; a situation differs in the verified/real/destination pattern of a batch, registration and freeze state and outcome",
        assumes: &["workers holding the quorum do not vote for two contents of one id", "a registered chain's gateway relies on a voting verifier (a chain whose registered gateway is hostile speaks for itself only)"],
    },
    Prop {
        id: "C02",
        drivers: &[("router", crate::router::run, 1)],
        quick: 4000,
        thorough: 60000,
        mins: &[("route.accepted", 2000), ("refused.destination_frozen", 200), ("refused.source_frozen", 200), ("refused.wrong_source", 200), ("refused.unregistered", 200), ("refused.nexus_unknown", 100)],
        rule: ROUTER_RULE,
        assumes: &["counterparties are stubs; cw-multi-test models commit and rollback"],
    },
    Prop {
        id: "C03",
        drivers: &[("router", crate::router::run, 1)],
        quick: 4000,
        thorough: 60000,
        mins: &[("route.accepted", 2000), ("route.multi_dest", 500), ("route.messages", 5000)],
        rule: ROUTER_RULE,
        assumes: &["counterparties are stubs; cw-multi-test models commit and rollback"],
    },
    Prop {
        id: "C04",
        drivers: &[("router", crate::router::run, 1)],
        quick: 3000,
        thorough: 50000,
        mins: &[("router.unauthorised", 1000), ("router.admin_ok", 1000), ("router.admin_invalid", 500), ("C04.unfreezes", 500)],
        rule: "random registry histories; distinct router storage states reached",
        assumes: &["upgrading a chain to the gateway it already has is left open"],
    },
    Prop {
        id: "C05",
        drivers: &[("gateway", crate::gateway::run, 1)],
        quick: 5000,
        thorough: 60000,
        mins: &[("incoming.accepted", 5000), ("incoming.forwarded", 5000), ("incoming.held_back", 5000), ("incoming.refused", 1000)],
        rule: GW_RULE,
        assumes: GW_ASSUME,
    },
    Prop {
        id: "C06",
        drivers: &[("gateway", crate::gateway::run, 1)],
        quick: 5000,
        thorough: 60000,
        mins: &[("outgoing.accepted", 5000), ("outgoing.redelivered", 200), ("read.found", 3000), ("read.missing", 1000)],
        rule: GW_RULE,
        assumes: GW_ASSUME,
    },
    Prop {
        id: "C07",
        drivers: &[("gateway", crate::gateway::run, 1)],
        quick: 5000,
        thorough: 60000,
        mins: &[("verify.accepted", 5000), ("verify.forwarded", 5000), ("verify.refused", 1000)],
        rule: GW_RULE,
        assumes: GW_ASSUME,
    },
    Prop {
        id: "C08",
        drivers: &[("aggverifier", crate::aggverifier::run, 1)],
        quick: 4000,
        thorough: 50000,
        mins: &[("verify.answered", 5000), ("verify.failed", 2000), ("query.answered", 3000), ("voting.answered", 5000), ("voting.refused", 200), ("voting.polls", 2000), ("voting.queries_verified", 2000)],
        rule: "random requests and queries through the real aggregate verifier, over a stub verifier with arbitrary answers in either reply form (including none, garbage and failure) and over the real voting verifier next to a twin reached directly; a situation differs in the answer form and status pattern",
        assumes: &["two forms of reply data are recognised: a bare list of statuses and the voting verifier's response object"],
    },
    Prop {
        id: "C09",
        drivers: &[("voting", crate::voting::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("polls.large_decided", 10), ("votes.decided_an_item", 2000), ("status.verified", 5000), ("votes.accepted_from_deactivated", 500)],
        rule: VV_RULE,
        assumes: VV_ASSUME,
    },
    Prop {
        id: "C10",
        drivers: &[("voting", crate::voting::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("votes.accepted", 5000), ("votes.refused_expired", 300), ("votes.refused_repeat", 300), ("votes.refused_outsider", 300), ("votes.refused_length", 200)],
        rule: VV_RULE,
        assumes: VV_ASSUME,
    },
    Prop {
        id: "C11",
        drivers: &[("voting", crate::voting::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("polls.messages", 2000), ("polls.ended", 1000), ("end.refused_again", 200), ("end.refused_early", 200), ("verify.nothing_to_poll", 300), ("verify.refused", 300)],
        rule: VV_RULE,
        assumes: VV_ASSUME,
    },
    Prop {
        id: "C12",
        drivers: &[("voting", crate::voting::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("ws.confirmed", 2000), ("polls.worker_set", 2000), ("polls.worker_set_again", 200)],
        rule: VV_RULE,
        assumes: VV_ASSUME,
    },
    Prop {
        id: "C13",
        drivers: &[("voting", crate::voting::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("polls.crowded_decided", 5), ("credits.polls", 500), ("credits.participations", 2000), ("credits.withheld", 300)],
        rule: VV_RULE,
        assumes: VV_ASSUME,
    },
    Prop {
        id: "C14",
        drivers: &[("registry", crate::registry::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("bond.ok", 5000), ("bond.refused_funds", 500), ("bond.refused_zero", 300), ("claim.paid", 1500), ("query.worker", 10000)],
        rule: SR_RULE,
        assumes: SR_ASSUME,
    },
    Prop {
        id: "C15",
        drivers: &[("registry", crate::registry::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("claim.paid", 3000), ("claim.refused_early", 2000), ("claim.refused_nothing", 1000), ("claim.at_deadline", 300), ("claim.just_before_deadline", 300), ("bond.while_unbonding", 1000), ("unbond.refused_again", 500)],
        rule: SR_RULE,
        assumes: SR_ASSUME,
    },
    Prop {
        id: "C16",
        drivers: &[("registry", crate::registry::run, 1)],
        quick: 2000,
        thorough: 30000,
        mins: &[("query.active", 50000), ("query.active_some", 3000), ("authorise.ok", 3000), ("declare.ok", 2000)],
        rule: SR_RULE,
        assumes: SR_ASSUME,
    },
    Prop {
        id: "C17",
        drivers: &[("registry", crate::registry::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("register.unauthorised", 500), ("register.duplicate", 500), ("register.ok", 2000), ("authorise.unauthorised", 1000), ("authorise.ok", 3000), ("query.worker", 10000), ("query.worker_missing", 5000)],
        rule: SR_RULE,
        assumes: SR_ASSUME,
    },
    Prop {
        id: "C18",
        drivers: &[("rewards", crate::rewards::run, 1)],
        quick: 8000,
        thorough: 150000,
        mins: &[("pay.ok", 5000), ("pay.insufficient", 1000), ("deposit.refused", 1000), ("pay.rewarded", 3000)],
        rule: RW_RULE,
        assumes: RW_ASSUME,
    },
    Prop {
        id: "C19",
        drivers: &[("rewards", crate::rewards::run, 1)],
        quick: 8000,
        thorough: 150000,
        mins: &[("pay.ok", 5000), ("pay.nothing_left", 2000), ("pay.zero_epochs", 300), ("pay.epochs", 10000)],
        rule: RW_RULE,
        assumes: RW_ASSUME,
    },
    Prop {
        id: "C20",
        drivers: &[("rewards", crate::rewards::run, 1)],
        quick: 8000,
        thorough: 150000,
        mins: &[("pay.rewarded", 3000), ("pay.below_threshold", 1000), ("pay.rounded_down", 1000)],
        rule: RW_RULE,
        assumes: RW_ASSUME,
    },
    Prop {
        id: "C21",
        drivers: &[("rewards", crate::rewards::run, 1)],
        quick: 8000,
        thorough: 150000,
        mins: &[("update.ok", 3000), ("update.ends_epoch", 500), ("update.unauthorised", 500), ("pay.old_params", 500)],
        rule: RW_RULE,
        assumes: RW_ASSUME,
    },
    Prop {
        id: "C22",
        drivers: &[("rewards", crate::rewards::run, 1)],
        quick: 8000,
        thorough: 150000,
        mins: &[("record.late", 3000), ("record.events", 5000), ("pay.rewarded", 3000)],
        rule: RW_RULE,
        assumes: RW_ASSUME,
    },
    Prop {
        id: "C23",
        drivers: &[("multisig", crate::multisig::run, 1)],
        quick: 5000,
        thorough: 100000,
        mins: &[("sig.accepted", 5000), ("sig.invalid", 2000), ("sig.duplicate", 1000), ("sig.outsider", 1000), ("sig.high_s", 200), ("query.session", 20000)],
        rule: MS_RULE,
        assumes: MS_ASSUME,
    },
    Prop {
        id: "C24",
        drivers: &[("multisig", crate::multisig::run, 1)],
        quick: 5000,
        thorough: 100000,
        mins: &[("session.completed", 1000), ("sig.accepted_in_grace", 500), ("sig.too_late", 300), ("sig.last_block_of_grace", 200)],
        rule: MS_RULE,
        assumes: MS_ASSUME,
    },
    Prop {
        id: "C25",
        drivers: &[("multisig", crate::multisig::run, 1)],
        quick: 5000,
        thorough: 100000,
        mins: &[("start.ok", 3000), ("start.unauthorised", 1000), ("start.invalid", 500), ("set.registered", 2000), ("query.set", 20000), ("auth.refused", 500)],
        rule: MS_RULE,
        assumes: MS_ASSUME,
    },
    Prop {
        id: "C26",
        drivers: &[("multisig", crate::multisig::run, 1)],
        quick: 5000,
        thorough: 100000,
        mins: &[("key.registered", 5000), ("key.refused", 2000), ("query.key", 50000), ("query.no_key", 50000)],
        rule: MS_RULE,
        assumes: MS_ASSUME,
    },
    Prop {
        id: "C27",
        drivers: &[("prover", crate::prover::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("construct.ok", 3000), ("construct.rotating", 300), ("construct.again", 1000), ("construct.not_held", 300), ("construct.bad_address", 100), ("construct.other_chain", 100), ("commands.checked", 10000)],
        rule: PR_RULE,
        assumes: PR_ASSUME,
    },
    Prop {
        id: "C28",
        drivers: &[("prover", crate::prover::run, 1), ("prover_weighted", crate::prover::run_weighted, 2)],
        quick: 5000,
        thorough: 80000,
        mins: &[("proof.accepted", 3000), ("proof.pending", 3000), ("sign.high_s", 1000), ("weighted.accepted", 3000), ("weighted.trimmed", 500), ("weighted.pending", 500)],
        rule: PR_RULE,
        assumes: PR_ASSUME,
    },
    Prop {
        id: "C29",
        drivers: &[("prover", crate::prover::run, 1)],
        quick: 2500,
        thorough: 40000,
        mins: &[("update.ok", 1000), ("update.unchanged", 1000), ("update.pending_set", 500), ("confirm.ok", 1000), ("confirm.unconfirmed", 1000), ("confirm.nothing_pending", 500), ("construct.rotating", 300)],
        rule: PR_RULE,
        assumes: PR_ASSUME,
    },
    Prop {
        id: "C30",
        drivers: &[("prover_ids", crate::prover::run_ids, 3), ("prover", crate::prover::run, 1)],
        quick: 6000,
        thorough: 100000,
        mins: &[("digest.equal", 3000), ("digest.different", 20000), ("batch_id.equal", 3000), ("batch_id.different", 20000), ("set_id.different", 10000), ("operators.equal", 3000), ("operators.different", 10000)],
        rule: "all pairs among groups of near-identical batches, requests (with ids containing separators and set hashes), worker sets and operator sets, and all sessions of random prover histories; distinct batches digested and situations of the histories",
        assumes: PR_ASSUME,
    },
    Prop {
        id: "C31",
        drivers: &[("nexus", crate::nexus::run, 1)],
        quick: 6000,
        thorough: 200000,
        mins: &[("deliver.ok", 20000), ("deliver.repeated", 10000), ("deliver.repeated_in_batch", 3000), ("deliver.unauthorised", 3000), ("from.ok", 10000), ("from.unauthorised", 2000)],
        rule: "random deliveries from the router (with ids repeated within and across batches, also with other content and of other chains) and from nexus, by every kind of sender; a situation is a distinct pattern of new and repeated ids or list of messages",
        assumes: &["a failed call leaves no state, as on chain", "message ids shorter than the storage key limit"],
    },
    Prop {
        id: "C32",
        drivers: &[("nexus", crate::nexus::run, 1)],
        quick: 6000,
        thorough: 200000,
        mins: &[("convert.parsed", 10000), ("convert.fallback", 10000), ("return.round_trip", 3000), ("from.messages", 10000)],
        rule: "ids of many shapes (with and without 0x, upper case, odd or non-hex, missing, negative or overflowing index, extra separators), canonical ones sent back; a situation is a distinct list of messages",
        assumes: &["ids with a repeated 0x prefix or a signed index may be read either way"],
    },
    Prop {
        id: "C33",
        drivers: &[("batching", crate::batching::run, 1)],
        quick: 6000,
        thorough: 120000,
        mins: &[("batch.took_effect", 10000), ("batch.rejected", 5000), ("batch.isolated_failures", 10000), ("batch.with_successful_optional", 5000), ("batch.mixed", 2000)],
        rule: "random batches of journal calls (also failing after writing, with funds, or passing on further messages), bank transfers and nested batches over two batch contracts, against an interpreter of the batch semantics; a situation is a distinct shape of batch with its failure positions",
        assumes: &["submessage and reply semantics as modelled by cw-multi-test"],
    },
    Prop {
        id: "C34",
        drivers: &[("values", crate::types::run_values, 1)],
        quick: 20000,
        thorough: 200000,
        mins: &[("decode.refused", 50000), ("decode.accepted", 50000), ("construct.refused", 30000), ("construct.accepted", 30000), ("contract.refused", 20000), ("contract.accepted", 30000)],
        rule: "raw JSON values (empty, zero, boundary, overlong, wrongly typed and permitted ones) through both JSON decoders of every constrained type, all constructors, and 28 messages of all contracts with such values in their constrained fields; a situation is a distinct type and shape of input",
        assumes: &["JSON is the only encoding contracts receive", "numbers written with a sign, leading zeros or as JSON numbers may be read either way"],
    },
    Prop {
        id: "C35",
        drivers: &[("threshold", crate::types::run_threshold, 1)],
        quick: 30000,
        thorough: 200000,
        mins: &[("threshold.compared", 100000), ("threshold.equal_differently_written", 5000), ("quorum.computed", 50000)],
        rule: "pairs of thresholds (equal ones written differently, neighbours, extremes of u64) and snapshots of up to 12 participants with weights up to 2^240, against 512-bit arithmetic; a situation is a distinct comparison outcome or (participants, threshold, size of total)",
        assumes: &["participants of a snapshot have distinct addresses", "total weight times numerator fits in 512 bits and the quorum in 256"],
    },
    Prop {
        id: "C36",
        drivers: &[("poll", crate::types::run_poll, 1)],
        quick: 80000,
        thorough: 600000,
        mins: &[("poll.voted", 50000), ("poll.vote_refused", 30000), ("poll.recounted", 100000), ("poll.partly_decided", 10000), ("poll.some_disagree", 10000), ("poll.finished", 5000)],
        rule: "random polls (0-6 items, up to 9 unequal weights) with accepted and refused ballots, expiry boundaries, finishing and storing in between, recounted from the ballots after every attempt; a situation is a distinct (results, agreeing, voted, finished)",
        assumes: &["participants of a snapshot have distinct addresses"],
    },
    Prop {
        id: "C37",
        drivers: &[("keys", crate::types::run_keys, 1)],
        quick: 8000,
        thorough: 150000,
        mins: &[("chain.parsed", 50000), ("cc_id.round_trip", 50000), ("cc_id.parsed", 20000), ("cc_id.parse_refused", 5000), ("maps.read_back", 4000), ("prefix.read", 20000)],
        rule: "chain names, cross-chain ids, poll ids, addresses, key types and batch ids (separators, cases, prefixes of one another, unicode, long) printed, parsed, serialised and stored in maps that are read back by key, by range and by chain; a situation is a distinct shape of (chain name, id)",
        assumes: &["each part of a storage key is shorter than 64 KiB (the limit of the storage library)", "case-insensitivity concerns ASCII letters"],
    },
    Prop {
        id: "C38",
        drivers: &[("hash", crate::types::run_hash, 1), ("twins", crate::types::run_twins, 1)],
        quick: 12000,
        thorough: 150000,
        mins: &[("hash.computed", 100000), ("hash.equal", 1000), ("twins.asked", 50000), ("twins.verified", 5000), ("twins.failed", 3000)],
        rule: "groups of messages that differ in one field, in case, by a swap or at a field boundary: pairwise identities, and their verification side by side by the real voting verifier; a situation is a distinct shape of message or pattern of verification states",
        assumes: &["Keccak-256 is collision free"],
    },
    Prop {
        id: "C39",
        drivers: &[("e2e", crate::e2e::run, 4), ("nexus", crate::nexus::run, 1), ("gateway", crate::gateway::run, 1)],
        quick: 15000,
        thorough: 200000,
        mins: &[("priv.refused", 20000), ("priv.allowed", 10000), ("deliver.unauthorised", 500), ("from.unauthorised", 300)],
        rule: "every reserved operation, with contents from valid to void, by its authority and by every other kind of account (other authorities, the contracts, the very chain's gateway, workers, former and present signing callers, the deployer, look-alike names, and through an intermediate contract), in states reached by random histories over the wired contracts; a situation differs in operation, caller's role, permission and state",
        assumes: &["authorities are fixed at instantiation; some episodes give two offices to one account"],
    },
    Prop {
        id: "C40",
        drivers: &[("voting", crate::voting::run, 1)],
        quick: 3000,
        thorough: 40000,
        mins: &[("events.announced", 20000), ("verify.respelled", 2000), ("verify.bad_ids", 2000)],
        rule: "random histories of verification requests that reuse ids in other spellings (leading zeros, signs, blanks, extra separators, wrapped indices, near-equal transaction ids) against the real voting verifier; a situation is a pair of ids announced for one source event or a new one",
        assumes: VV_ASSUME,
    },
    Prop {
        id: "C50",
        drivers: &[("router", crate::router::run, 2), ("gateway", crate::gateway::run, 2), ("voting", crate::voting::run, 2), ("multisig", crate::multisig::run, 2), ("prover", crate::prover::run, 1)],
        quick: 2000,
        thorough: 40000,
        mins: &[("events.compared", 20000), ("operations.silent", 200)],
        rule: "random histories over the real router, gateway, voting verifier, multisig and prover, every successful operation's custom events compared with what the operation did; a situation is an operation and what it has to tell",
        assumes: &["the order of the events within one response is left open"],
    },
];

pub fn table() -> &'static [Prop] {
    TABLE
}
