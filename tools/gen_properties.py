#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is the source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": list(observe), "hook_needed": None}})
R="contracts/connection-router/src/"; G="contracts/gateway/src/"; V="contracts/voting-verifier/src/"
S="contracts/service-registry/src/"; W="contracts/rewards/src/"; M="contracts/multisig/src/"
X="contracts/multisig-prover/src/"; N="contracts/nexus-gateway/src/"; B="contracts/batching/src/"
D="ampd/src/"; A="contracts/aggregate-verifier/src/"; L="packages/axelar-wasm-std/src/"

p("C01","End to end: only quorum-verified messages are delivered, unaltered, once routed",
"Whatever relayers, users and a minority of workers submit and in whatever order, a message becomes available on its destination chain's gateway only if workers holding at least the verifier's quorum of the weight that was active when its poll opened voted that exactly this message (id, addresses, chains and payload hash) succeeded on its source chain. A message that was verified and successfully routed is available, unaltered, on the gateway of its destination chain and on no other registered gateway. A message that was never verified, or whose content differs in any field from the verified one, never gets there.",
["histories","inputs"],"all interleavings of verify, vote, end-poll, route, freeze and worker (un)registration calls by honest and hostile actors over the wired contracts",
"The cross-contract tests run one happy path per scenario with every worker voting success; nothing tests hostile relayers, split votes, near-identical messages or interleaved polls across the wired contracts.",
[G+"contract/execute.rs",R+"contract/execute.rs",V+"execute.rs",V+"query.rs",L+"voting.rs"],
[("gateway asks the verifier before forwarding","contracts/gateway/src/contract/execute.rs"),("router accepts only the gateway of the source chain","contracts/connection-router/src/contract/execute.rs"),("poll quorum","packages/axelar-wasm-std/src/voting.rs")],
[("outgoing messages","messages available for the destination chain",G+"state.rs")],["gateway GetMessages query","router message_routed events"])

p("C02","Router admits messages only from the source chain's own gateway or nexus",
"A batch of messages is accepted for routing only if its sender is the nexus gateway or the currently registered gateway of a chain whose incoming direction is not frozen and which is the source chain of every message in the batch; in addition every destination must be a registered chain not frozen for outgoing traffic (an unknown destination is handed to the nexus gateway, unless nexus itself is the sender). Every batch that meets these conditions is accepted. A batch that fails any of them is rejected as a whole: none of its messages is delivered.",
["histories","inputs"],"all senders, batches (mixed sources and destinations, empty, duplicates) and all histories of registration, gateway upgrade, freeze and unfreeze",
"Unit tests check single conditions on freshly built routers; combinations of freeze direction, upgraded gateways, multi-destination batches and the nexus exception over long histories are not reached.",
[R+"contract/execute.rs",R+"contract.rs",R+"state.rs"],
[("validate_msgs / frozen checks","contracts/connection-router/src/contract/execute.rs")],
[("chain endpoints","registered chains, their gateway and frozen directions",R+"state.rs")],["accept/reject of RouteMessages","messages received by peer gateways"])

p("C03","Router delivers every accepted message exactly once, unaltered and in order",
"For each accepted batch, every message is delivered exactly once and field-for-field unaltered to the gateway currently registered for its destination chain (or to the nexus gateway when the destination is not registered), to nobody else, with the relative order of messages to the same destination preserved. Each accepted message is announced by exactly one routing event carrying its own content.",
["inputs","histories"],"all batches (any grouping of destinations, repeated and interleaved destinations, duplicates) and all registration histories",
"Tests use a handful of two-destination batches; loss, duplication or misdelivery in interleaved groups or after gateway upgrades is not observed.",
[R+"contract/execute.rs",R+"events.rs"],[("group by destination and dispatch","contracts/connection-router/src/contract/execute.rs")],
[],["messages received by peer gateways","message_routed events"])

p("C04","Chain registry: unique gateways, exact freeze state, changed only by authority",
"Only governance can register a chain or change its gateway, and only the router admin can freeze or unfreeze; a chain name can be registered once and a gateway address belongs to at most one chain at any time. The chain information that queries report is always exactly what the accepted history implies: the latest gateway, and each direction frozen iff it was frozen more recently than unfrozen. The announcement emitted for an accepted change names the change that was made: an unfreeze is announced as an unfreeze, a freeze as a freeze.",
["histories"],"all histories of register, upgrade, freeze and unfreeze by all senders, with chain names differing in case",
"Tests check single transitions, not the cumulative effect of arbitrary histories, and no test checks the unfreeze announcement.",
[R+"contract/execute.rs",R+"contract.rs",R+"state.rs",R+"events.rs","packages/connection-router-api/src/primitives.rs"],
[("require_governance/require_admin","contracts/connection-router/src/contract.rs"),("gateway uniqueness check","contracts/connection-router/src/contract/execute.rs"),("bit-set flags","packages/axelar-wasm-std/src/flagset.rs")],
[("frozen_status","bit set of frozen directions",R+"state.rs")],["GetChainInfo query","events"])

p("C05","A gateway sends to the router only messages its verifier reports as verified",
"When anyone but the router submits messages for routing, the gateway forwards to the router exactly those messages the verifier reports verified at that moment, each once, unaltered and in order, and reports each of the others as failed without forwarding it. A request in which two messages share an id is rejected as a whole, and an empty request has no effect.",
["inputs","histories"],"all batches, senders and verifier answers",
"Tests use fixed message lists with all-verified or all-unverified answers plus one mix; duplicates with differing content and arbitrary mixes are not explored.",
[G+"contract/execute.rs",G+"contract.rs"],[("query verifier then partition","contracts/gateway/src/contract/execute.rs")],[],["messages sent to router","routing/routing_failed events"])

p("C06","Only the router can place messages on a gateway, and they are read back exactly",
"A message becomes retrievable from a gateway only through a delivery made by the gateway's router, and is then returned exactly as last delivered for its id. A retrieval request returns the requested messages in the requested order, or fails if any requested id was never delivered.",
["histories","inputs"],"all histories of deliveries and routing attempts from all senders and all id lists, including ids that differ only in chain/id boundary or case",
"Tests deliver once and read once; overwrites, near-colliding ids and hostile senders over histories are not covered.",
[G+"contract/execute.rs",G+"contract/query.rs",G+"state.rs"],[("router sender check","contracts/gateway/src/contract/execute.rs"),("outgoing message map keyed by cross-chain id","contracts/gateway/src/state.rs")],
[("OUTGOING_MESSAGES","messages routed to this gateway",G+"state.rs")],["GetMessages query"])

p("C07","A gateway requests verification of exactly the messages not yet verified",
"A verification request made to a gateway is passed to its verifier with exactly the submitted messages that the verifier does not yet report as verified, unaltered and in order; if there are none, nothing is sent. A request in which two messages share an id is rejected, and verification requests never route or store anything.",
["inputs","histories"],"all batches and all verifier answers",
"Tests use fixed batches; mixes of verified/unverified and duplicates at arbitrary positions are sampled once.",
[G+"contract/execute.rs"],[("partition by verification status","contracts/gateway/src/contract/execute.rs")],[],["messages sent to the verifier"])

p("C08","The aggregate verifier reports exactly what its underlying verifier reports",
"A verification request to the aggregate verifier is forwarded unaltered to its configured verifier and answered with exactly the per-message statuses that verifier returned, failing if the verifier fails; a status query is answered with exactly the configured verifier's answer. This holds with the voting verifier of this repository as the underlying verifier.",
["inputs","histories"],"all batches and verifier answers, with the repository's voting verifier behind it",
"The contract's tests replace the voting verifier by a mock whose reply format differs from the real one and never query through it.",
[A+"contract.rs",A+"lib.rs",V+"execute.rs"],[("submessage reply","contracts/aggregate-verifier/src/contract.rs")],[],["response data","IsVerified query"])

p("C09","A message is verified iff a quorum of its poll's snapshot voted success",
"A message is reported as verified iff, in the latest poll opened for it, participants whose weight fixed at the opening of the poll sums to at least the rounded-up voting threshold of the total voted that it succeeded on chain; votes on other messages, in other polls or by non-participants, and later changes of the active workers, never count. Once verified, a message stays verified forever.",
["histories","inputs"],"all histories of verification requests, votes, expiries, poll endings and worker-set changes, with near-identical messages",
"Tests use one or two workers or unanimous votes; boundaries of the quorum, mixed votes per message, repeated polls and registry changes between opening and voting are not explored.",
[V+"execute.rs",V+"query.rs",L+"voting.rs",L+"snapshot.rs"],[("consensus by running tally","packages/axelar-wasm-std/src/voting.rs"),("snapshot at poll creation","contracts/voting-verifier/src/execute.rs")],
[("poll message map","message hash to its latest poll and index",V+"state.rs")],["IsVerified query","VerifyMessages response"])

p("C10","One vote per participant, only in time and for every item of the poll",
"A vote is accepted iff the poll exists, the voter was an active worker when the poll opened, the poll has not expired, the ballot has exactly one vote per item and the voter has not voted in that poll before. A rejected vote never changes any result, and an accepted one is counted exactly once with the voter's snapshot weight.",
["histories","inputs"],"all orders of votes by participants and outsiders around expiry, over several concurrent polls",
"Tests cast single votes per rule; double votes across interleaved polls, exact expiry boundaries and wrong-length ballots in combination are not explored.",
[V+"execute.rs",L+"voting.rs"],[("cast_vote checks","packages/axelar-wasm-std/src/voting.rs")],[("participation","who may vote, weight, and cast ballot",L+"voting.rs")],["accept/reject of votes","poll results"])

p("C11","Polls cover exactly the unverified messages, with fresh ids, and end once",
"A verification request opens one poll that covers exactly the submitted messages that are neither verified nor in a poll that has not been ended, announces them unaltered (transaction id, event index, addresses, destination, payload hash) together with the participants active at that block and the expiry, and opens none if there are none; poll ids are never reused. Requests that are empty, name another source chain or contain an unparseable id among the messages to poll are rejected (an index in another spelling than plain decimal may be). A poll can be ended exactly once, by anyone, and only at or after its expiry height, and its announced results are the per-item quorum results.",
["histories","inputs"],"all histories of overlapping verification requests, votes and poll endings",
"Tests check single requests; overlap of requests in different poll states, id uniqueness and event contents across histories are not covered.",
[V+"execute.rs",V+"events.rs",V+"query.rs"],[("status partition","contracts/voting-verifier/src/execute.rs"),("poll counter","packages/axelar-wasm-std/src/counter.rs")],[],["poll_started / poll_ended events","accept/reject"])

p("C12","A worker set is confirmed iff a quorum of its latest poll voted success",
"An operator set is reported as confirmed iff in the latest poll opened for exactly that set (same operators, weights and threshold; the order in which they are listed when the set is built does not matter) the rounded-up quorum of the snapshot weight voted success; it then stays confirmed, and no new poll can be opened for it. A set that differs in any operator, weight or threshold is never affected.",
["histories","inputs"],"all histories of worker-set polls, votes and near-identical operator sets, interleaved with message polls",
"Tests confirm one set with unanimous votes.",
[V+"execute.rs",V+"query.rs",L+"operators.rs"],[("operators hash","packages/axelar-wasm-std/src/operators.rs")],[],["IsWorkerSetVerified query","worker_set_poll_started event"])

p("C13","Poll participation is credited exactly to voters agreeing with every result",
"When a poll is ended, participation is reported to the rewards contract exactly once for each participant whose ballot agrees with the result of every item that reached a quorum, under the poll's own id, and for nobody else. No other operation of the verifier credits participation.",
["histories","inputs"],"all ballots, quorums and multi-item polls",
"Tests check one poll with uniform votes; mixed multi-item polls with and without quorum are not explored.",
[V+"execute.rs",L+"voting.rs"],[("consensus_participants","packages/axelar-wasm-std/src/voting.rs")],[],["messages sent to the rewards contract"])

p("C14","Stake conservation: the registry always holds exactly what workers have at stake",
"Apart from tokens sent to it other than with a bond request, the registry's token balance per bond denomination at all times equals the sum of all workers' bonded and unbonding amounts, each worker's recorded amount being exactly what that worker paid in and has not been paid back; tokens only ever leave to the worker that bonded them. Funds the registry does not credit to the sender's bond (wrong or additional denominations, zero amounts for a new worker) are refused rather than kept.",
["histories","inputs"],"all histories of bond, unbond, claim, authorisation and service registration by many workers over several services and denominations",
"Tests run single-worker sequences with one coin; multi-coin deposits, several services sharing a denomination and long mixed histories are not covered.",
[S+"contract.rs",S+"state.rs"],[("BondingState transitions","contracts/service-registry/src/state.rs"),("BankMsg::Send on claim","contracts/service-registry/src/contract.rs")],
[("bonding_state","bonded/requested/unbonding amount per worker",S+"state.rs")],["bank balances","GetWorker query"])

p("C15","Unbonded stake is paid once, in full, and only after the unbonding period",
"A worker's stake can be claimed only if the worker asked to unbond at least the service's unbonding period earlier and has not bonded again since; the claim pays exactly the recorded amount in the service's denomination to that worker, and a second claim pays nothing. A worker cannot start unbonding while nothing is bonded or while already unbonding; bonding again while unbonding returns the whole stake to bonded and a claim then needs a new unbonding request and period.",
["histories"],"all histories of bond, unbond, claim, rebond and time steps including the exact boundary second",
"Tests jump once past the period; boundaries, repeated cycles and rebonding are not explored.",
[S+"contract.rs",S+"state.rs"],[("unbonding timestamp check","contracts/service-registry/src/state.rs")],[],["bank transfers","accept/reject of claims"])

p("C16","Active workers are exactly the authorised, bonded, chain-supporting ones",
"The active workers reported for a service and chain are exactly the workers that are currently authorised by governance for that service, currently bonded (not unbonding or unbonded) with at least the service's minimum stake, and have declared support for that chain, each listed once. The report for one service or chain is never affected by workers' state in another service or their support of another chain.",
["histories"],"all histories of authorise, unauthorise, bond, unbond, claim and chain declarations by many workers over several services and chains",
"Tests change one condition of one worker at a time in one service.",
[S+"contract.rs",S+"state.rs"],[("chain support index plus filters","contracts/service-registry/src/contract.rs")],[("WORKERS_PER_CHAIN","declared support per service and chain",S+"state.rs")],["GetActiveWorkers query"])

p("C17","Services and workers are reported truthfully under governance control",
"Only governance can register services and authorise or unauthorise workers; a service name can be registered once and its parameters never change afterwards. Queries for a service or a worker return exactly the record that the accepted history implies for that service and worker, and fail when there is none.",
["histories","inputs"],"all histories and all senders, with several services and workers whose names may coincide or contain one another",
"No test queries an individual worker, and tests have a single service.",
[S+"contract.rs",S+"state.rs"],[("governance check","contracts/service-registry/src/contract.rs")],[],["GetService and GetWorker queries"])

p("C18","Reward pools are conserved and never pay for one another",
"At all times the rewards contract holds exactly the sum of the deposits made with AddRewards minus the payouts, per pool (tokens sent to it in other ways belong to no pool); each payout is charged to the pool of the contract whose participation earned it and never exceeds that pool's balance, and a distribution that the pool cannot cover fails without any effect. A deposit is accepted iff it is exactly one non-zero coin of the configured denomination, and then credits exactly the named contract's pool.",
["histories","inputs"],"all histories of deposits (any coins), participation, distribution and parameter updates over several contracts",
"Tests run one or two pools with fixed numbers and no over-draw across pools.",
[W+"contract.rs",W+"contract/execute.rs",W+"state.rs"],[("RewardsPool::sub_reward","contracts/rewards/src/state.rs")],[("pools","balance per contract",W+"state.rs")],["bank balances and transfers"])

p("C19","Each epoch is rewarded at most once, in order, and only two epochs after it",
"A distribution for a contract pays epochs strictly in increasing order starting after the last epoch already processed for that contract, at most as many as requested (or the default limit), and never an epoch less than two epochs old; no epoch of a contract is ever paid twice and, as long as distribution keeps being called, none is skipped. If nothing is left to process the call fails without effect.",
["histories"],"all histories of participation, distribution with any requested count, block heights and parameter updates",
"Tests distribute over a few contiguous epochs; partial distributions, gaps, repeated calls and parameter updates in between are not explored.",
[W+"contract/execute.rs",W+"contract.rs"],[("rewards watermark","contracts/rewards/src/contract/execute.rs")],[("watermark","last epoch processed per contract",W+"state.rs")],["transfers made by DistributeRewards"])

p("C20","Epoch rewards are split equally among exactly the workers above the threshold",
"A calling contract reports a worker at most once per event. For each processed epoch in which a contract had events, the workers whose number of participations divided by the number of the epoch's events is at least the participation threshold in force for that epoch each receive the epoch's reward divided by their number, rounded down, and no other account receives anything. Distinct epochs and distinct contracts are tallied independently.",
["histories","inputs"],"all participation patterns, thresholds, rewards amounts, epoch lengths and contracts",
"Tests use hand-picked tallies; thresholds at exact boundaries, many workers and indivisible amounts are sampled only a few times.",
[W+"state.rs",W+"contract/execute.rs"],[("EpochTally::rewards_by_worker","contracts/rewards/src/state.rs")],[("epoch tallies","event count and participation per worker",W+"state.rs")],["transfers made by DistributeRewards"])

p("C21","Epochs advance with block height; parameter updates do not rewrite history",
"The epoch number never decreases; under unchanged parameters it advances by one each epoch-duration blocks, and an update by governance (nobody else) either keeps the current epoch running under the new duration or, if that has already elapsed, starts the next epoch at the current block. Epochs whose first participation was recorded before an update are rewarded under the parameters of that time, later epochs under the new ones.",
["histories"],"all histories of parameter updates at any height, participation and distribution",
"Tests perform one update per case.",
[W+"contract/execute.rs",W+"contract.rs",W+"msg.rs"],[("current_epoch / update_params","contracts/rewards/src/contract/execute.rs")],[("stored params","parameters with the epoch they were set in",W+"state.rs")],["amounts and timing of payouts"])

p("C22","Participation counts for the calling contract, in the event's own epoch",
"A calling contract reports a worker at most once per event. A recorded participation counts only towards the contract that reported it, and every participation in the same event of the same contract counts in the epoch in which that event was first reported, however late it is reported, while equal event ids of different contracts are different events. Each event is counted once towards the epoch's number of events.",
["histories"],"all interleavings of reports from several contracts, events spanning epoch boundaries and equal event ids",
"Tests cover one contract spanning two epochs and two contracts separately.",
[W+"contract/execute.rs",W+"state.rs"],[("event keyed by contract","contracts/rewards/src/contract/execute.rs")],[],["payouts"])

p("C23","A signing session records only valid signatures of its own signers, once each",
"A signature is accepted iff the session exists, the sender is a signer of the session's worker set who has not signed it yet, the signature verifies over the session's message under that signer's key in the worker set, and the session is open or within the grace period after completion. Every signature ever reported for a session therefore verifies under the reported signer's key over that session's message.",
["inputs","histories"],"all senders, sessions, keys of both types, replayed, mutated, swapped and cross-session signatures",
"Tests use three fixed key pairs and one message; replay across sessions and signers, re-registered keys and mixed key types are not explored.",
[M+"signing.rs",M+"key.rs",M+"contract.rs",M+"state.rs",M+"secp256k1.rs",M+"ed25519.rs"],[("validate_session_signature","contracts/multisig/src/signing.rs")],[("signatures","signature per session and signer",M+"state.rs")],["accept/reject of SubmitSignature","GetMultisig query"])

p("C24","A session completes exactly when its signers reach the quorum, and never reopens",
"A session is reported completed iff the summed weight of the signers whose signatures it recorded reached the worker set's threshold, at the height of the signature that reached it; the completion height never changes, completion is announced exactly once, and signatures are refused once the grace period after it has passed but accepted within it. Each accepted signature is credited to its signer exactly once at the rewards contract under the session's id.",
["histories","inputs"],"all orders of signatures, weights, thresholds, heights and grace periods",
"Tests use equal weights and a fixed threshold; weighted quorums, late signatures at the boundary and many interleaved sessions are not explored.",
[M+"signing.rs",M+"contract.rs",M+"types.rs"],[("recalculate_session_state","contracts/multisig/src/signing.rs")],[("state","pending or completed at height",M+"types.rs")],["GetMultisig query","events","rewards messages"])

p("C25","Sessions are opened by authorised callers and keep their message and signers",
"A signing session is opened only at the request of a contract governance currently authorises, for a 32-byte message and an already registered worker set, under a session id never used before. Later registrations of keys or worker sets, other sessions and changes of authorisation never change an existing session's message, signers, weights, threshold or recorded signatures; a worker set is always retrievable unchanged under the id derived from its content.",
["histories"],"all histories of authorisation, registration, key changes and session starts by all senders",
"Tests start at most two sessions and never mutate keys or sets afterwards.",
[M+"contract.rs",M+"worker_set.rs",M+"state.rs"],[("require_authorized_caller","contracts/multisig/src/contract.rs"),("content-addressed worker sets","contracts/multisig/src/worker_set.rs")],[],["signing_started events","GetMultisig and GetWorkerSet queries"])

p("C26","A worker's public key is exactly what that worker last registered",
"The public key reported for a worker and key type is exactly the one that worker itself last registered for that type; no other sender, other key type or failed registration can change it, and a key whose length is not valid for its type is refused.",
["histories","inputs"],"all histories of registrations of both key types by many workers with valid and malformed keys",
"Tests register once or twice for one worker.",
[M+"contract.rs",M+"key.rs",M+"state.rs"],[("keyed by (sender, key type)","contracts/multisig/src/state.rs")],[],["GetPublicKey query"])

p("C27","A batch contains exactly the requested messages, faithfully encoded",
"The data of a proof consists of exactly one approval command per requested message (requests name each message once), in the order of the request or, if the same messages were requested before with the same worker set, of that earlier request, whose id is the hash of the message id and whose parameters decode, under the destination chain's encoding, to that message's source chain, source address, destination address (whitespace in an EVM address is ignored) and payload hash as held by the gateway, for the configured destination chain id, plus one operatorship transfer exactly when the worker set is being rotated. A request naming a message the gateway does not hold or an address not valid on the destination chain fails.",
["inputs","configurations"],"all messages, addresses, batches, both encodings and all destination chain ids",
"Tests decode one golden batch per encoding.",
[X+"encoding/mod.rs",X+"encoding/abi.rs",X+"encoding/bcs.rs",X+"execute.rs"],[("CommandBatchBuilder","contracts/multisig-prover/src/encoding/mod.rs")],[("COMMANDS_BATCH","batches by id",X+"state.rs")],["GetProof query","signing_started event"])

p("C28","A completed proof convinces the destination gateway",
"Whenever a proof is reported complete, its execute data carries exactly the batch's data and digest-signing signers: every operator of the session's worker set, in strictly increasing order with its weight and the quorum, and signatures that recover, over the digest of that data, to distinct listed operators in that order and whose weights sum to at least the quorum. While the session is pending no execute data is reported.",
["inputs","histories","configurations"],"all worker sets and weights, subsets and orders of signers, both encodings, compressed and uncompressed keys and every signature the multisig accepts",
"Tests encode one golden proof; no test recovers signers from a produced proof or covers unequal weights, partial signing or non-canonical signatures.",
[X+"query.rs",X+"encoding/abi.rs",X+"encoding/bcs.rs",M+"key.rs"],[("optimize_signers","contracts/multisig-prover/src/query.rs"),("to_recoverable","contracts/multisig/src/key.rs")],[],["GetProof query"])

p("C29","A prover's worker set changes only to a set confirmed by the verifier",
"Once a first worker set exists, the current set reported by a prover changes only by a confirmation call, only to the pending set, and only if the verifier reports exactly that set as confirmed; it is then registered with the multisig. A new pending set is only created when it differs from the current one by more than the configured number of signers, reflects the active workers, their registered keys and the signing threshold at that block, and never replaces a different pending set.",
["histories"],"all histories of worker and key changes, update, proof construction and confirmation attempts",
"Tests perform one rotation per case.",
[X+"execute.rs",X+"query.rs"],[("save_next_worker_set / confirm_worker_set","contracts/multisig-prover/src/execute.rs")],[("CURRENT/NEXT_WORKER_SET","active and pending signer set",X+"state.rs")],["GetWorkerSet query","messages to multisig"])

p("C30","Signing digests and batch and set identifiers bind their content",
"Two batches get the same signing digest only if their destination chain and every command (content and order) are the same, and two batch requests share an identifier only if they name the same messages (in any order, each named once) and the same new worker set; recomputing either from equal content gives the equal value. Two worker sets share an identifier only if they agree in every signer, weight, key, threshold and creation height, and operator sets (with distinct operators) hash equally iff they are equal regardless of the order in which they are given to the constructor.",
["inputs"],"all pairs of near-identical batches, message id lists, worker sets and operator sets",
"Tests compare single golden values.",
[X+"encoding/mod.rs",X+"encoding/abi.rs",X+"encoding/bcs.rs",X+"types.rs",M+"worker_set.rs",L+"operators.rs"],[("keccak over canonical encoding","contracts/multisig-prover/src/encoding")],[],["library API"])

p("C31","Messages reach the nexus module at most once each and only from the router",
"Each cross-chain message id handed over by the router is passed to the nexus module exactly once, whatever the batching, repetition or order of deliveries, and messages from any other sender are never passed on. Messages from nexus are accepted only from the nexus address and passed to the router completely, once and in order.",
["histories","inputs"],"all histories of deliveries with repeated ids within and across batches, from all senders",
"Tests repeat an id only across separate calls through a mocked store.",
[N+"contract/execute.rs",N+"state.rs"],[("routed id set","contracts/nexus-gateway/src/state.rs")],[("ROUTED_MESSAGE_IDS","ids already sent to nexus",N+"state.rs")],["messages emitted by the nexus gateway"])

p("C32","Conversion between router and nexus messages preserves their content",
"A message passed to or from nexus keeps its source chain, source address, destination chain, destination address and payload hash; its transaction id and index are the decoded parts of an id of the form <hex tx id>:<index>, and otherwise the whole id is carried as transaction id (ids with a repeated 0x prefix or a signed index may be read either way). A message from nexus gets the id <hex tx id>:<index>, and converting a canonical id to nexus and back yields the same id.",
["inputs"],"all ids (with and without 0x prefix, non-hex, missing or overflowing index, extra separators), addresses and chains",
"Tests convert two fixed ids.",
[N+"nexus.rs"],[("parse_message_id","contracts/nexus-gateway/src/nexus.rs")],[],["messages emitted by the nexus gateway"])

p("C33","Batches: mandatory messages are all-or-nothing, optional ones are isolated",
"A batch takes effect only if all of its mandatory messages succeed, in which case each mandatory and each successful optional message took effect exactly once, mandatory ones first and both in the given order; a failing optional message leaves no effect of its own, does not disturb the others and is reported with its position and error. If a mandatory message fails, no message of the batch has any effect.",
["inputs","fault_sequences"],"all batches with failures injected at any positions, including nested batches and bank transfers",
"The contract has no tests.",
[B+"contract.rs",B+"msg.rs"],[("add_messages / reply_always","contracts/batching/src/contract.rs")],[],["effects on target contracts","failed_msg events"])

p("C34","Constrained values can never hold a forbidden value",
"Values of the constrained types (non-empty strings and lists, non-zero integers and timestamps, thresholds in (0,1] and majority thresholds in (1/2,1], fixed-length keys, chain names and addresses) can be neither constructed nor deserialised with a forbidden value, and every permitted value is accepted and survives serialisation unchanged. In particular no contract message carrying a forbidden value is accepted. Inverting a threshold and alternative spellings of a number (sign, leading zeros, a bare JSON number) are left open, as is the length of a signature.",
["inputs"],"all values and encodings, valid and invalid",
"Tests cover constructors of some types; deserialisation of most is untested.",
[L+"nonempty/",L+"threshold.rs",L+"hex.rs","packages/connection-router-api/src/primitives.rs",M+"key.rs"],[("TryFrom and serde try_from","packages/axelar-wasm-std/src/nonempty")],[],["library API","contract messages"])

p("C35","Threshold and quorum arithmetic is exact",
"Thresholds compare exactly as the rational numbers they denote, and the quorum of a set of participants is the smallest integer weight not below threshold times total weight, for every weight distribution; it is at least one and at most the total, and with a majority threshold two disjoint groups can never both reach it. A snapshot contains exactly the given participants (which have distinct addresses) with their weights.",
["inputs"],"all thresholds, numbers of participants and weights including extremes of the integer ranges",
"Tests use small hand-picked numbers.",
[L+"threshold.rs",L+"snapshot.rs"],[("cross-multiplied comparison","packages/axelar-wasm-std/src/threshold.rs"),("mul_ceil","packages/axelar-wasm-std/src/snapshot.rs")],[],["library API"])

p("C36","Poll tallies always equal the recount of the ballots",
"After any sequence of voting attempts on a poll (over a snapshot of participants with distinct addresses), each item's result equals the recount of accepted ballots (first accepted ballot per participant, weighted) against the quorum, with at most one winner per item (and the running tallies answer any other quorum as the recount does); the participants reported as agreeing are exactly those whose ballot matches every decided item; rejected attempts and queries never change anything.",
["inputs","histories"],"all snapshots, weights, poll sizes, ballots and heights",
"Tests use single-item polls or two voters.",
[L+"voting.rs"],[("running tallies","packages/axelar-wasm-std/src/voting.rs")],[("tallies","weight per option and item",L+"voting.rs")],["library API"])

p("C37","Cross-chain ids, chain names and storage keys are canonical and reversible",
"Cross-chain ids, chain names, poll ids, key types and batch ids parse, print, serialise and are used as storage keys without loss: wherever both exist, printing and parsing gives back the equal value, equal values give equal keys, distinct values give distinct keys and a key decodes to the value it was made from (parts below 64 KiB). Chain names are ASCII-case-insensitive (the router's type stores them in lower case, the API's keeps the spelling but compares without case) and never contain the id separator.",
["inputs"],"all strings including separators, upper case, unicode, empty and very long ones",
"Tests parse a few fixed strings.",
["contracts/connection-router/src/state.rs","packages/connection-router-api/src/primitives.rs",L+"voting.rs",M+"key.rs",X+"types.rs"],[("FromStr/Display/PrimaryKey impls","contracts/connection-router/src/state.rs")],[],["library API"])

p("C38","Distinct messages never share a verification identity",
"Two messages that differ in any field (id, source or destination chain, source or destination address, payload hash) are verified independently: the hash that identifies a message for verification is equal only for equal messages, so neither verifying, polling nor submitting one message can affect or block another.",
["inputs"],"all pairs of messages differing in one field or at a field boundary",
"One golden hash value is tested.",
["contracts/connection-router/src/state.rs",V+"query.rs",V+"execute.rs"],[("Message::hash","contracts/connection-router/src/state.rs")],[],["Message hash","voting verifier requests"])

p("C39","Privileged operations are available to exactly their designated authority",
"For every operation reserved to an authority (router governance, router admin, registry governance, rewards governance, multisig governance, authorised signing callers, the router in gateways, nexus in the nexus gateway), a call by any other account, including other contracts, workers, previous holders and accounts that hold a different privilege, fails and changes nothing observable, whatever the state of the system and the content of the call. The designated authority is not refused for lack of permission.",
["histories","inputs"],"all privileged operations x all kinds of senders x reachable states",
"Tests try one unauthorised sender per operation in one state.",
[R+"contract.rs",S+"contract.rs",W+"contract.rs",M+"contract.rs",G+"contract/execute.rs",N+"contract/execute.rs"],[("sender checks","per contract execute entry points")],[],["accept/reject","queries before and after"])

p("C40","One source event is verified under one message id only",
"Two different message ids never denote the same source event: whenever a voting verifier opens polls for messages with different ids, the transaction id and event index it asks the voters about differ, so one event of the source chain can be verified, and hence delivered, under at most one id. (Whether textually different transaction ids mean the same transaction to some source chain is outside the contract's view.)",
["histories","inputs"],"all pairs of message ids a verifier accepts, in any requests of any history",
"Tests parse well-formed ids and a few malformed ones; that no second spelling of an index (leading zeros, a sign, wrapped values) or of the separators maps to the same event needs pairs of near-equal ids over histories.",
[V+"events.rs",V+"execute.rs"],[("message id parsing","contracts/voting-verifier/src/events.rs")],[],["messages_poll_started events","accept/reject"])

p("C41","EVM worker vouches for a message exactly when its node shows the event final",
"For every message poll of its chain it takes part in, the daemon casts one vote per polled message, in the order polled. The vote is 'succeeded' exactly if the node shows the named transaction in a block that is final (by the node's finalized tag on Ethereum, by the poll's number of confirmations elsewhere) and its receipt holds, at the named log index, a contract call of the polled gateway with the polled source address, destination chain, destination address and payload hash; otherwise it is 'not found'. It never vouches without an answer of the node, never crashes on what the node answers, and never vouches for one event under two spellings of a transaction id.",
["inputs","histories"],"all polls the real voting verifier can start and all node answers: unknown, pending, not yet final and final transactions, foreign, junk and unreadable logs, near-equal events, failing requests, finality near genesis",
"The handler tests mock the finalizer and the RPC client and compare a single matching or non-matching receipt; they never put real polls, near-equal events and an inconsistent or failing node together.",
[D+"handlers/evm_verify_msg.rs",D+"evm/verifier.rs",D+"evm/finalizer.rs",D+"evm/json_rpc.rs"],[("verify_message",D+"evm/verifier.rs"),("finalizers",D+"evm/finalizer.rs")],[],["Vote messages handed to the broadcaster","requests sent to the node"])

p("C42","EVM worker vouches for a worker set exactly when its node shows it final",
"For every worker-set poll of its chain it takes part in, the daemon casts one vote, which is 'succeeded' exactly if the node shows the named transaction final and its receipt holds, at the named log index, an operatorship transfer of the polled gateway to exactly the polled operators, weights and threshold; otherwise it is 'not found'. It never vouches without an answer of the node and never crashes on what the node answers.",
["inputs","histories"],"all worker-set polls the real voting verifier can start and all node answers, including sets with one operator, weight or threshold off, other orders, other events at the index",
"The handler tests compare one matching set with single-field variations on mocked clients.",
[D+"handlers/evm_verify_worker_set.rs",D+"evm/verifier.rs",D+"evm/finalizer.rs"],[("verify_worker_set",D+"evm/verifier.rs")],[],["Vote messages handed to the broadcaster"])

p("C43","Sui worker vouches for messages and worker sets exactly when its node shows them",
"For every poll of Sui it takes part in, the daemon casts one vote per polled item in the order polled, which is 'succeeded' exactly if the node shows the named transaction in a checkpoint with, at the named event sequence number, an event of the polled gateway package of the right type whose fields equal those polled (sender, destination chain and address, payload hash; operators, weights, threshold); otherwise it is 'not found'. It never vouches without an answer of the node and never crashes on what the node answers.",
["inputs","histories"],"all polls the real voting verifier can start for Sui and all node answers: transactions without checkpoint, foreign packages and types, shifted sequence numbers, other fields, failing and partial responses",
"The handler tests mock the client; the verifier tests vary single fields.",
[D+"handlers/sui_verify_msg.rs",D+"handlers/sui_verify_worker_set.rs",D+"sui/verifier.rs",D+"sui/json_rpc.rs"],[("verify_message / verify_worker_set",D+"sui/verifier.rs")],[],["Vote messages handed to the broadcaster"])

p("C44","Voting daemon acts on exactly the open polls of its verifier it takes part in",
"A vote is cast for a poll exactly if it was started by the voting verifier the handler was configured with, is about the handler's chain (where it is configured with one), names the daemon's worker among its participants and has not expired at the latest block height known; the vote names that poll and goes to that verifier in the worker's name. Events of any other contract or kind, however they are formed, are passed over without failing the handler, and so are malformed items within a poll, which are voted 'not found' without affecting the other items.",
["inputs","histories"],"all sequences of events of the own verifier, of other verifiers and of hostile contracts, at all block heights, for every handler",
"Handler tests check one foreign contract address, one non-participant and one expired poll, all well formed; contracts that imitate the events in other formats and polls with malformed items are not tested.",
[D+"handlers/evm_verify_msg.rs",D+"handlers/evm_verify_worker_set.rs",D+"handlers/sui_verify_msg.rs",D+"handlers/sui_verify_worker_set.rs","packages/events/src/event.rs"],[("event filters",D+"handlers/"),("event parsing","packages/events-derive/src/lib.rs")],[],["messages handed to the broadcaster","result of EventHandler::handle"])

p("C45","Signing daemon submits exactly the signatures its own key owes to sessions",
"For every signing session started by the configured multisig contract whose keys include the daemon's worker and whose expiry lies above the latest block height, the daemon asks tofnd once for a signature of exactly the session's message, with the worker's key of that session under the multisig contract's key uid, and submits it, naming the session, to the contract, which accepts it. It asks for and submits nothing in any other case; it never submits anything when tofnd refuses, fails or answers with something else than a signature, and reports that failure. Malformed keys of other workers, foreign contracts and events that imitate sessions neither stop it nor make it sign.",
["inputs","histories"],"all sessions the real multisig contract can start (key kinds, sets of workers, malformed keys of others, expiry), hostile look-alike events, all answers of tofnd",
"Handler tests decode one fixed event and mock the signer; no signature produced by the daemon is ever given to the contract.",
[D+"handlers/multisig.rs",D+"tofnd/grpc.rs",D+"types.rs"],[("handle SigningStarted",D+"handlers/multisig.rs")],[],["requests to tofnd","SubmitSignature messages handed to the broadcaster","what the multisig contract does with them"])

p("C46","Accepted messages are broadcast once, in order, in time and within the limit",
"Every message a handler of the daemon hands to the broadcast queue is broadcast exactly once unless a broadcast fails or the chain refuses to estimate its fee; messages go out in the order they were accepted, at latest one interval (and the work in between) after acceptance, in batches whose estimated gas stays below the configured limit unless a single message exceeds it; no batch is empty. A message that cannot be estimated affects no other message. After a failed broadcast nothing more is sent and the queue ends with the failure; when all clients are gone it sends what is left and ends in order.",
["inputs","schedules","histories"],"all arrivals of messages from several clients over time, gas estimates, limits, capacities, intervals, slow and failing estimates and broadcasts, forced flushes, clients leaving",
"The unit tests send ten messages of equal gas, from one client, with a broadcaster that answers at once.",
[D+"queue/queued_broadcaster.rs",D+"queue/msg_queue.rs"],[("run",D+"queue/queued_broadcaster.rs")],[],["calls of Broadcaster::broadcast and estimate_fee with their times","result of run"])

p("C47","The daemon's transactions are valid, paid for as configured and confirmed",
"Each transaction the daemon broadcasts carries exactly the messages given, is signed by its tofnd key over the bytes sent, for the configured chain, its account number and the account's current sequence, with a gas limit of the simulated gas times the adjustment and a fee of that limit times the gas price, and is sent once. A broadcast is reported as success exactly if the node confirms, within the configured number of queries, that this very transaction was executed without error; failures of simulation, signing, sending, confirmation and execution are all reported and, where they come first, nothing is sent. The account data used is what the chain reports.",
["inputs","histories"],"all sequences of broadcasts and estimates with failing, empty and late answers at each step, gas from 0 to 2^44, prices and adjustments, restarts after a failure",
"The unit tests mock client and signer and never check a signature, the sequence after several broadcasts, or the messages of what is sent.",
[D+"broadcaster.rs",D+"broadcaster/clients.rs",D+"broadcaster/tx.rs",D+"broadcaster/accounts.rs"],[("broadcast / confirm_tx",D+"broadcaster.rs")],[],["bytes received by the played chain","requests to tofnd","result of broadcast"])

p("C48","Handlers see every event of every block once, in order, across restarts",
"Over any sequence of runs of the daemon on one state file, every handler is given the events of every block from the start on, each block's events completely, once and in the chain's order, between its begin and end, with no block skipped; only after a crash may the blocks since the state was last saved be given again. This holds whatever the node does: latest heights that go back or jump, failing and late requests, blocks with many events. The failure of a handler ends the daemon instead of leaving the handler behind, an orderly shutdown stops at the end of a block and saves what was done, and a state file that is damaged or unreadable is reported, not taken for a new start.",
["inputs","schedules","crash_points","fault_sequences","histories"],"all sequences of runs with crashes, orderly ends and handler failures at any point, several handlers at different heights and speeds, node faults, damaged state files",
"The unit tests feed single streams of a few prepared events to one processor, and never restart, lag, fail or cross blocks with a saved state.",
[D+"event_sub.rs",D+"event_processor.rs",D+"state.rs"],[("process_blocks_from / skip_to_block",D+"event_sub.rs"),("consume_events / run",D+"event_processor.rs"),("StateUpdater / load / flush",D+"state.rs")],[],["calls of EventHandler::handle","the state file","result and time of ending"])

p("C49","A worker set up with the daemon's commands gets every session of its signed",
"Over any sequence of the daemon's commands and runs with one configuration and state file: worker-address prints the account the daemon acts as; register-public-key registers the very key the daemon signs sessions with, bond-worker and declare-chain-support send exactly what was asked for, each in one valid transaction of that account, or nothing where they report a failure. The daemon keeps the account it first ran with, resumes where it stopped, survives kills, ends in order on SIGINT and SIGTERM with its state saved, reports when its node fails, and in the end every session in a block it has handled that includes its registered key bears its signature, and no other session does.",
["inputs","crash_points","fault_sequences","histories"],"all sequences of commands, daemon runs (stopped, killed, failed by the node at any time), key changes at tofnd and signing sessions, with several configurations of handlers and of the broadcast queue",
"No test runs a command or the daemon as a whole; each part is tested alone against mocks of the others.",
[D+"lib.rs",D+"commands/mod.rs",D+"commands/register_public_key.rs",D+"commands/daemon.rs",D+"commands/bond_worker.rs",D+"commands/declare_chain_support.rs"],[("App::run / configure_handlers",D+"lib.rs"),("run",D+"commands/register_public_key.rs")],[],["transactions executed by the played chain","signatures held by the multisig contract","the state file","result and time of ending"])

p("C50","Contract events tell exactly what each operation did",
"Every successful operation of the router, a gateway, the voting verifier, the multisig contract or a prover announces, in that contract's custom events, exactly what it did, with the values recorded, and nothing else: each chain registered, upgraded, frozen or unfrozen, each message routed or delivered and each held back, each poll opened, ballot cast and poll ended, each key registered (also when it is registered again), each caller authorised or removed, each session started, signature recorded and completion reached, and each proof put under construction. Verification requests to a gateway and queries announce nothing there. Relayers and workers, who act on these events alone, therefore never miss or invent anything.",
["histories","inputs"],"all histories of operations of these contracts, with all contents and sizes of requests",
"Tests look at the events of a few single operations; relayers depend on every event of every operation, in any state and for requests of any size.",
[R+"events.rs",R+"contract/execute.rs",G+"events.rs",G+"contract/execute.rs",V+"events.rs",V+"execute.rs",M+"events.rs",M+"contract.rs","contracts/multisig-prover/src/events.rs"],[("make_message_event",R+"events.rs"),("route_outgoing_messages",G+"contract/execute.rs"),("Event::from",M+"events.rs")],[],["custom events of every response"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + "\n")
print(len(P))
