import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CP="crates/consensus/primary/src/"
p("C01","Every node commits the same sequence of sub-DAGs, whatever the delivery order",
"Any two nodes that are given the same certificates, each in any order that respects causality, commit the same sequence of leaders and sub-DAGs; while one has seen less, its sequence is a prefix of the other's. Every committed sub-DAG holds exactly the leader and the part of its causal history that is newer than what was already committed of each author and is not garbage, each certificate once overall, ordered by round with the leader last. A leader is committed only with support worth at least one honest vote in the following round, or when a later leader with such support reaches it.",
["schedules","histories","inputs"],"all DAGs (missing certificates, any parent quorum, several committee sizes) and all causal delivery orders",
"The commit tests need a full node environment and check a few hand-drawn DAGs with one delivery order each; agreement is a statement about pairs of schedules.",
[CP+"consensus/bullshark.rs",CP+"consensus/utils.rs",CP+"consensus/state.rs","crates/types/src/primary/output.rs"],
[("commit rule and leader chain",CP+"consensus/bullshark.rs"),("ordering and garbage horizon of a sub-DAG",CP+"consensus/utils.rs"),("DAG insertion and garbage collection",CP+"consensus/state.rs")],
"sub-DAGs returned for every certificate processed",[("dag","certificates by round and author not yet garbage"),("last committed rounds","per author horizon")])

p("C02","A restarted node resumes the committed sequence where it stopped",
"A node stopped after any number of commits and rebuilt from what it had stored commits, once it receives the remaining certificates, exactly the sub-DAGs a node that never stopped would have committed next: none lost, repeated or different, with the same leader schedule, reputation, commit time and randomness. Stored state that cannot anchor the continuation is refused rather than silently replaced by a fresh start.",
["crash_points","histories"],"all stop points in all generated histories of commits",
"Recovery is tested from one or two fixed histories; a divergence appears only for particular stop points (mid schedule, right after a schedule change, with skipped leaders).",
[CP+"consensus/state.rs",CP+"consensus/leader_schedule.rs","crates/storage/src/consensus.rs","crates/storage/src/consensus_pack.rs","crates/storage/src/stores/certificate_store.rs"],
[("state rebuilt from the certificate store",CP+"consensus/state.rs"),("leader schedule rebuilt from the last final scores",CP+"consensus/leader_schedule.rs"),("last committed rounds read back","crates/storage/src/consensus_pack.rs")],
"the commits before and after the restart")

p("C03","Leader election and reputation are functions of the committed history alone",
"For every even round there is exactly one leader, it is a member of the committee, and every node that committed the same sub-DAGs elects the same one. Reputation points count support given to committed leaders, are complete and flagged final exactly when the leader in the last position of a scoring window (counted in leader rounds) is committed, and a schedule change only replaces members of the worst-scoring group (at most the configured share of the committee and at least one, or those that scored nothing at all) by members of the best-scoring group. Without a schedule change leaders rotate so that each member leads equally often.",
["inputs","histories"],"all committees, score tables, thresholds and rounds, and all commit histories",
"Schedules are tested on one four-node committee with a fixed score table.",
[CP+"consensus/leader_schedule.rs","crates/types/src/primary/reputation.rs",CP+"consensus/bullshark.rs"],
[("swap table",CP+"consensus/leader_schedule.rs"),("scores","crates/types/src/primary/reputation.rs"),("scoring windows",CP+"consensus/bullshark.rs")],
"leaders elected and scores carried by commits")

p("C04","A certificate is valid only with a quorum of the committee's signatures on it",
"A certificate received from anyone is accepted as verified exactly when its header is well-formed for the committee and its epoch and its signature is the aggregate of genuine signatures, on that very header, of distinct committee members holding at least a quorum of votes. Whatever the sender claims about its verification state, and whatever single part of a valid certificate is altered, an unsupported certificate is refused. A certificate assembled from votes verifies whenever the votes were genuine and reached a quorum.",
["inputs","fault_sequences"],"all committees, signer subsets, forged or altered fields and claimed verification states",
"Unit tests try a few fixed forgeries; the guarantee is over every signer subset and every field.",
["crates/types/src/primary/certificate.rs","crates/types/src/primary/header.rs","crates/types/src/committee.rs",CP+"aggregators/votes.rs",CP+"state_sync/cert_validator.rs"],
[("quorum and aggregate check","crates/types/src/primary/certificate.rs"),("header checks","crates/types/src/primary/header.rs"),("vote aggregation",CP+"aggregators/votes.rs")],
"verification result and resulting certificate state")

p("C05","A validator votes for at most one header per author and round",
"For every author, epoch and round a validator signs at most one header, never goes back to an older round for that author, and repeats the same vote when asked again for the same header, also after it restarted from its stored state at any moment. It signs only headers sent by their author, for its own epoch, with known quorum parents of the previous round by distinct authors, an acceptable creation time and available payload.",
["histories","crash_points","schedules","fault_sequences"],"all sequences of vote requests (equivocating, replayed, stale, malformed, with missing parents) and restarts",
"The network tests issue a few requests in one fixed order each; equivocation needs particular histories across restarts.",
[CP+"network/handler.rs",CP+"state_sync/header_validator.rs","crates/storage/src/stores/vote_digest_store.rs","crates/types/src/primary/vote.rs"],
[("vote handler",CP+"network/handler.rs"),("durable vote record","crates/storage/src/stores/vote_digest_store.rs"),("header checks before voting",CP+"state_sync/header_validator.rs")],
"votes returned to requesters",None,"the handler is private to its crate")

p("C06","Certificates enter the DAG after their parents, once, and none is lost",
"Certificates delivered in any order, repeatedly and in any grouping are handed to ordering exactly once each, and only when every parent was handed over before or lies below the garbage horizon; once all ancestors of a valid certificate have arrived, it has been handed over. Certificates that are invalid or of another epoch never are, and one below the garbage horizon that arrives alone is refused. A node that lacks ancestors of a valid certificate asks for exactly the rounds it does not have, gets them from any honest peer in spite of silent, failing and lying ones, and then stops asking; whatever a peer asks for, it is served only stored certificates above the round it names.",
["schedules","inputs"],"all delivery orders, duplications, drops and groupings of all generated DAGs",
"The existing tests deliver a handful of fixed orders in a full environment that is not runnable in the stable suite.",
[CP+"state_sync/cert_manager.rs",CP+"state_sync/pending_cert_manager.rs",CP+"state_sync/cert_validator.rs",CP+"state_sync/cert_collector.rs",CP+"certificate_fetcher.rs",CP+"network/message.rs",CP+"network/sync_codec.rs","crates/storage/src/stores/certificate_store.rs"],
[("suspension and release",CP+"state_sync/pending_cert_manager.rs"),("acceptance",CP+"state_sync/cert_manager.rs"),("validation before acceptance",CP+"state_sync/cert_validator.rs")],
"certificates sent to ordering and stored",None,"private to its crate")

p("C07","An epoch hands over only to the committee certified by its super-majority",
"An epoch record is accepted as certified exactly when its certificate carries genuine signatures on that record of more than two thirds of the distinct members of that epoch's committee. A record chains only to a compatible predecessor: the members it names are those its predecessor handed over to, or a permitted reduction of them; altered, reordered, duplicated or foreign records, votes and signatures are refused.",
["inputs","histories"],"all committees, signer sets, record chains and alterations of them",
"Tests use a few fixed committees; thresholds and compatibility have to hold for every size and subset.",
["crates/types/src/primary/epoch.rs","crates/storage/src/epoch_records.rs","crates/node/src/manager/epoch_votes.rs"],
[("certificate check","crates/types/src/primary/epoch.rs"),("committee compatibility","crates/types/src/primary/epoch.rs"),("validation against an anchor","crates/storage/src/epoch_records.rs")],
"results of verification and validation")

p("C08","The randomness chain is determined by the ordered leader signatures",
"The seed of every committed sub-DAG is the fixed hash of the previous seed, the leader's round and the leader's seed signature, starting from a root that depends only on the epoch; equal histories give equal seeds and any difference in order, round, epoch or signature gives a different one. A leader's seed signature verifies only for its key, its epoch, its round and the prior epoch's record. Commit times never decrease along the sequence.",
["inputs","histories"],"all epochs, rounds, keys, signature sequences and alterations",
"Tests pin single known values; the binding to every component is universal.",
["crates/types/src/primary/seed_chain.rs","crates/types/src/primary/epoch.rs","crates/types/src/primary/output.rs"],
[("chain","crates/types/src/primary/seed_chain.rs"),("seed message","crates/types/src/primary/epoch.rs"),("fold at commit","crates/types/src/primary/output.rs")],
"seeds carried by commits")

p("C09","A validator proposes one header per round and loses none of its batches",
"A validator's rounds strictly increase and it never signs two different headers for one epoch and round, also after restarting from its stored state. Every batch it is given is proposed, in order and within the per-header limit, and is proposed again if the header carrying it is passed over, but not once that header was committed (a commit the node had not executed before it stopped aside). A header carries exactly the certificates of the previous round it was given as parents, and is proposed at the latest when its maximum delay has passed and its parents are there.",
["schedules","crash_points","histories"],"all sequences of parents, batches, timer ticks, commits and restarts",
"Proposer tests check a few fixed scenarios; conservation and no-equivocation are over every interleaving and restart point.",
[CP+"proposer.rs","crates/storage/src/stores/proposer_store.rs"],
[("proposal",CP+"proposer.rs"),("last proposal stored first","crates/storage/src/stores/proposer_store.rs")],
"headers given to certification",None,"private to its crate")

p("E01","Encodings round-trip and digests identify content",
"Every message and record that is stored or sent decodes to an equal value that re-encodes to the same bytes and keeps its digest, and truncated or corrupted bytes give an error or a different digest, never a panic. Two headers, batches, certificates, votes, epoch records or consensus headers have the same digest only if they agree in every field the digest stands for; a digest claimed by the sender is never trusted over the content. Encoded keys sort like the values they stand for.",
["inputs"],"all values of every wire and storage type, and all mutations of their encodings",
"Round trips are tested for single instances; digest binding has to hold for every field and value.",
["crates/types/src/codec.rs","crates/types/src/serde.rs","crates/types/src/primary/header.rs","crates/types/src/primary/output.rs","crates/types/src/primary/block.rs","crates/types/src/worker/sealed_batch.rs"],
[("codec","crates/types/src/codec.rs"),("header wire form","crates/types/src/primary/header.rs"),("batch digest","crates/types/src/worker/sealed_batch.rs")],
"bytes, decoded values and digests")

p("E02","Only the holder of a key can produce what verifies under it",
"A signature verifies exactly for the key, message and purpose it was made for, an aggregate exactly for its set of signers, and a proof of possession exactly for its key and its account address. Keys and signatures survive every textual and binary encoding unchanged and anything else is refused when parsed, without panicking.",
["inputs"],"all keys, messages, signer sets, addresses and alterations of encodings",
"Tests sign one message with one or two keys.",
["crates/types/src/crypto/bls_signature.rs","crates/types/src/crypto/bls_keypair.rs","crates/types/src/crypto/bls_public_key.rs","crates/types/src/crypto/intent.rs","crates/types/src/crypto/network.rs","crates/types/src/crypto/mod.rs"],
[("BLS signatures","crates/types/src/crypto/bls_signature.rs"),("possession message","crates/types/src/crypto/mod.rs"),("key encodings","crates/types/src/crypto/bls_public_key.rs")],
"verification results and parsed keys")

p("E03","A committee's thresholds and identities are the same on every node",
"For a committee of any size, two quorums share at least one honest member, a validity set holds at least one, and both can be reached with the tolerated number of members absent. A committee built in any order, encoded and decoded, or reloaded orders, indexes and identifies its members identically: identities are derived from keys alone, lookups by key and by identity agree, and every member is found.",
["inputs","configurations"],"all committee sizes, member orders and encodings",
"Tests use committees of four to ten in creation order.",
["crates/types/src/committee.rs"],
[("thresholds and indexes","crates/types/src/committee.rs")],
"public queries of the committee")

SA="crates/storage/src/"
p("S01","An append-only log returns what was appended or an error, nothing else",
"Every record (up to the size limit of 16 MiB, beyond which it is refused) appended to a log is returned unchanged at the position reported, in order when iterated, before and after flushing, reopening and renaming, with and without compression. After a stop at any byte of the file the records before it are still returned and whatever is left of the rest is reported as an error or the end; a file with altered bytes yields errors or the original records, never different ones. Truncating removes exactly the records beyond the given length and appending continues there.",
["histories","crash_points","fault_sequences"],"all operation sequences, record sizes around the buffer sizes, and all truncation and corruption points",
"Tests append fixed sequences and cut or flip one place.",
[SA+"archive/pack.rs",SA+"archive/pack_iter.rs",SA+"archive/data_file.rs",SA+"archive/crc.rs"],
[("records with checksums",SA+"archive/pack.rs"),("buffered file",SA+"archive/data_file.rs"),("sequential reader",SA+"archive/pack_iter.rs")],
"records read back")

p("S02","The archive's indexes behave like maps, before and after reopening",
"The digest index returns for every key the position saved last and nothing for a key never saved, across bucket splits, overflow chains, synchronisation and reopening, including for adversarially chosen keys. The position index accepts exactly the next position, returns what was saved for each and iterates in both directions; truncation removes exactly what is beyond. A damaged digest index gives errors or misses, never an answer that was not saved for that key, and never a hang or panic; a position index cut at any byte keeps exactly the whole entries before the cut.",
["histories","inputs","fault_sequences"],"all operation sequences and key sets, and all corruptions",
"Tests insert sequential or random keys; bucket collisions and torn files at every point are not reached.",
[SA+"archive/digest_index/index.rs",SA+"archive/digest_index/bloom.rs",SA+"archive/digest_index/bucket_iter.rs",SA+"archive/position_index/index.rs"],
[("linear hashing with overflow",SA+"archive/digest_index/index.rs"),("overflow chains",SA+"archive/digest_index/bucket_iter.rs"),("fixed records by position",SA+"archive/position_index/index.rs")],
"lookups")

p("S03","The consensus history on disk survives a stop at any moment",
"Consensus outputs are stored in consecutive order only and are returned, by number, by digest and batch by batch, equal to what was stored. After a stop at any moment, reopening recovers a prefix of what was stored that contains at least everything that had been persisted; every recovered output is complete, missing ones can be stored again, and the file as a whole is one that a peer importing it accepts. The latest-consensus marker read back is one that was written, not older than the last one persisted.",
["crash_points","histories"],"all sequences of saves, flushes, persists, epoch changes and reopenings with stops between any two file states",
"Tests simulate a few particular torn states.",
[SA+"consensus_pack.rs",SA+"consensus.rs",SA+"certificate_pack.rs"],
[("healing on open",SA+"consensus_pack.rs"),("two alternating markers",SA+"consensus.rs")],
"outputs and headers read after reopening")

p("S04","History received from a peer is installed only if it is the certified history",
"A received epoch history is accepted only if it continues the certified previous epoch, its outputs are consecutively numbered and hash-linked, carry exactly the batches their headers name, and end in the certified final output of the epoch. Any other stream (altered, truncated, reordered, foreign or stalled) is refused, or at most adds bytes that are ignored while exactly the certified history is installed; what was installed before stays readable, also when the node stops while it installs, and an honest stream is accepted afterwards. What an honest node sends is accepted and equals the sender's history, and the validator reports no pack as valid that an import would refuse.",
["inputs","fault_sequences"],"all histories and all alterations of their streams (records dropped, swapped, substituted, truncated, flipped)",
"Tests stream one history and a few tampered ones.",
[SA+"consensus_pack.rs",SA+"consensus.rs",SA+"pack_validate.rs","crates/state-sync/src/lib.rs"],
[("import with checks",SA+"consensus_pack.rs"),("installation",SA+"consensus.rs")],
"result of the import and the history readable afterwards")

p("S05","Every key-value store behaves like an ordered map with atomic transactions",
"For any sequence of operations every backend (in memory, on disk, layered cache over disk, composed by table) returns what an ordered map would: point reads, presence, iteration in both directions and from a key, emptiness and clearing. A transaction on disk is seen by others as a whole or not at all, and after a stop and reopening everything acknowledged as durable is there; a write-behind store shows writes at once (removals at the latest when synchronised) and acknowledges them as durable only when they are, never after a failed write. Different tables never see each other's keys.",
["histories","crash_points","schedules"],"all operation sequences over all backends, with reopenings and concurrent readers",
"Tests run one fixed script per backend.",
[SA+"mem_db.rs",SA+"redb/database.rs",SA+"layered_db.rs",SA+"composite_db.rs","crates/types/src/database_traits.rs"],
[("memory map",SA+"mem_db.rs"),("disk",SA+"redb/database.rs"),("layered",SA+"layered_db.rs"),("composed",SA+"composite_db.rs")],
"results of every read")

p("S06","Epoch records are stored consecutively and found by number, hash and output",
"Epoch records and their certificates are returned by number and by digest exactly as stored, the latest is the highest stored, records are accepted only in consecutive order and never replaced, and every output number maps to the epoch that contains it. After a stop at any moment and reopening, what was persisted is there and what remains is a consistent prefix that can be continued. An exported bundle holds exactly the requested records and reads back equal.",
["histories","crash_points","inputs"],"all sequences of saves, certificates, persists, exports and reopenings, with damaged files",
"Tests store short fixed chains.",
[SA+"epoch_records.rs"],
[("records and certificates",SA+"epoch_records.rs"),("bundles",SA+"epoch_records.rs")],
"records and certificates read back")

p("S07","A state snapshot is read back complete and unaltered, or refused",
"A snapshot of execution state written account by account is read back with the same headers, accounts, balances, codes and storage in the same order, whether by account or entry by entry, and verification reports exactly what was written. A snapshot that is cut short, lacks its end, misstates its account count, header window or identity, or has any byte altered is refused; it never yields other state.",
["inputs","fault_sequences"],"all sets of accounts and storages (around the chunk size) and all truncations and alterations",
"Tests write a few accounts and corrupt chosen records.",
[SA+"exec_state_pack.rs"],
[("writer and reader",SA+"exec_state_pack.rs")],
"accounts read and verification result")

p("S08","Stored certificates are found by digest, round and origin consistently",
"Every certificate stored is found by its digest, under its round and under its author, and nothing else is: queries by round, after a round, by author, for the last and highest round and for existence agree with the set of stored certificates after any sequence of writes and deletions. Waiting readers are notified of the certificate they asked for.",
["histories","schedules"],"all sequences of writes, deletions and queries with concurrent waiters",
"Tests store one regular DAG.",
[SA+"stores/certificate_store.rs",SA+"certificate_pack.rs"],
[("three tables kept in step",SA+"stores/certificate_store.rs"),("certificate archive",SA+"certificate_pack.rs")],
"query results")

p("N01","Peer messages are framed exactly and a hostile sender cannot exhaust memory",
"Every message, sync frame and batch stream that is written is read back equal, one after the other on the same stream, however the bytes are split. Oversized or truncated input, input whose content does not decode to exactly one value, and corrupted input that decodes to nothing end in an error, without a panic, without waiting for bytes never announced and without taking more from the sender than the configured limit allows.",
["inputs","fault_sequences","schedules"],"all messages, limits, splittings and hostile byte strings",
"Codec tests cover fixed messages and lengths.",
["crates/network-libp2p/src/codec.rs","crates/network-libp2p/src/sync/frame.rs",CP+"network/sync_codec.rs","crates/consensus/worker/src/network/stream_codec.rs"],
[("request codec","crates/network-libp2p/src/codec.rs"),("sync frames","crates/network-libp2p/src/sync/frame.rs"),("batch stream","crates/consensus/worker/src/network/stream_codec.rs")],
"values decoded and errors")

p("N02","Misbehaving peers are banned, well-behaved and trusted ones never are",
"A peer's score moves only by its reported behaviour and by decay towards neutral, stays within bounds, and decides disconnecting and banning by the configured thresholds alone; committee members and trusted peers are never penalised or banned for their own behaviour. Banned peers and their addresses cannot connect until their ban ends, temporary bans end when they are due and not before, and all records and connection counts stay bounded and consistent with the peers that exist.",
["histories","inputs"],"all sequences of dials, connections, penalties, disconnections, time steps and committee changes",
"Peer tests cover fixed sequences with one or two peers.",
["crates/network-libp2p/src/peers/score.rs","crates/network-libp2p/src/peers/all_peers.rs","crates/network-libp2p/src/peers/banned.rs","crates/network-libp2p/src/peers/cache.rs","crates/network-libp2p/src/peers/manager.rs","crates/network-libp2p/src/peers/peer.rs"],
[("score","crates/network-libp2p/src/peers/score.rs"),("peer book","crates/network-libp2p/src/peers/all_peers.rs"),("temporary bans","crates/network-libp2p/src/peers/cache.rs")],
"ban decisions and counts",None,"private to its crate")

p("N03","Peer directory records are kept, replaced and expired by their rules only",
"The stored peer directory returns for every key exactly the record put last and still valid, survives reopening, keeps providers per key without duplicates and within its limits, and drops what is expired. A record that is oversized, is not signed by the validator it describes, names another publisher than its network key, lists too many addresses, is not newer than the one kept, or comes from a banned peer is neither served nor used to reach anyone, and nobody but its sender is charged for it. A committee member is reached where its newest genuine record says.",
["histories","inputs"],"all sequences of puts, removals, provider changes, expiries and reopenings",
"Tests cover single records.",
["crates/network-libp2p/src/kad.rs","crates/network-libp2p/src/consensus.rs","crates/network-libp2p/src/types.rs"],
[("record store","crates/network-libp2p/src/kad.rs"),("what is let in","crates/network-libp2p/src/consensus.rs"),("signed records","crates/network-libp2p/src/types.rs")],
"records returned and addresses used")

WK="crates/consensus/worker/src/"
p("W01","A batch is accepted exactly when it obeys every protocol rule",
"A worker accepts a batch exactly when its digest matches its content, it is for this worker and epoch, is not empty and within size and gas limits, carries the required base fee, and every transaction decodes completely, is signed and of an allowed type. Every rule is decided for all values including those where totals overflow, and the verdict does not depend on how the batch reached the worker. A transaction heard by gossip goes to the pool of exactly one member, the same for all transactions of one sender.",
["inputs"],"all batches around each limit and all alterations of valid ones",
"Tests violate each rule once with one value.",
["crates/batch-validator/src/validator.rs","crates/types/src/worker/sealed_batch.rs"],
[("rules","crates/batch-validator/src/validator.rs"),("limits","crates/types/src/worker/sealed_batch.rs")],
"verdict of the validator")

p("W02","A batch counts as available only when a quorum confirmed it",
"A worker reports its batch as available exactly when members holding a quorum, itself included, confirmed it; it reports failure once a quorum is impossible and a timeout when the time is over, for every order and mix of confirmations, refusals, failures and delays. A batch fetched for execution is one whose content hashes to the requested digest, whatever peers send, and all requested batches are returned once any source can supply them. A node serves a peer exactly the batches it asks for and the node holds, in its cache or its chain, refuses peers beyond its limits, and no peer that stalls or misbehaves keeps a place.",
["schedules","fault_sequences"],"all committees, response orders, refusals, failures, delays and corrupt answers",
"Tests answer in one order with one failure pattern.",
[WK+"quorum_waiter.rs",WK+"batch_fetcher.rs",WK+"network/mod.rs",WK+"network/handle.rs",WK+"network/handler.rs",WK+"network/primary.rs",WK+"network/stream_codec.rs"],
[("counting confirmations",WK+"quorum_waiter.rs"),("fetching with verification",WK+"batch_fetcher.rs"),("requests to peers",WK+"network/handle.rs"),("serving peers",WK+"network/mod.rs")],
"results reported and batches returned")

p("G01","Fees and rewards are computed exactly and without overflow",
"Per worker, blocks, gas used and gas limits add up exactly over any sequence of blocks and resets; the next base fee moves towards the target by at most one eighth, never below the floor, is unchanged at the target and never overflows. Rewards count each leader's commits and pay exactly the leaders' addresses; the penalty for unused gas is never more than what was left unused, grows with the waste, and is zero for honest estimates.",
["inputs","histories"],"all gas amounts, fees, sequences of blocks and committees",
"Unit tests sample fixed amounts.",
["crates/types/src/gas_accumulator.rs","crates/tn-reth/src/evm/utils.rs"],
[("accumulation and base fee","crates/types/src/gas_accumulator.rs"),("penalty for unused gas","crates/tn-reth/src/evm/utils.rs")],
"values returned")

p("T01","Notifications and channels never lose a wake-up",
"Whoever subscribed before a notification is woken by it, under every interleaving of subscribing, polling and notifying; shutdown stays signalled for late subscribers, an ordinary notification does not. A value announced for a key reaches every reader registered for that key, once, and readers that go away leave nothing behind. Channel wrappers deliver every message accepted, in order, and report full, closed and lagging truthfully; only the first of several errors is kept.",
["schedules","histories"],"all interleavings of subscribers, pollers, notifiers and drops",
"Tests exercise one interleaving each.",
["crates/types/src/notifier.rs","crates/types/src/sync.rs","crates/tn-utils/src/notify_read.rs","crates/storage/src/error_latch.rs","crates/types/src/task_manager.rs"],
[("notifier","crates/types/src/notifier.rs"),("keyed notifications","crates/tn-utils/src/notify_read.rs"),("channels","crates/types/src/sync.rs")],
"futures completed and messages received")

p("K01","Settings and keys are read back as written; secrets need their passphrase",
"Every configuration written to disk is read back equal, missing files get the documented defaults, and malformed or unsafe settings are refused instead of being replaced or clamped silently. Node keys written with a passphrase are recovered only with that passphrase and a damaged key file is refused; a stop or a full disk while settings are overwritten leaves the old or the new ones. Retried operations run as often and as long as configured, stop on permanent errors and return the last outcome.",
["inputs","configurations","fault_sequences"],"all settings, passphrases, alterations of files and sequences of outcomes",
"Tests write one configuration and one key.",
["crates/config/src/traits.rs","crates/config/src/network.rs","crates/config/src/keys.rs","crates/config/src/node.rs","crates/config/src/retry.rs","crates/types/src/primary/info.rs"],
[("files","crates/config/src/traits.rs"),("validation","crates/config/src/network.rs"),("keys","crates/config/src/keys.rs"),("retries","crates/config/src/retry.rs")],
"values read and attempts made")

p("P01","The gateway answers every request with a correct JSON-RPC reply or error",
"For every request body, however malformed, the gateway answers either with the unchanged reply of a ready upstream or with a JSON-RPC error that carries the identifier of the request when it can be recovered and none otherwise. Requests are admitted up to the configured rate per client network and overall, and clients of one network share one allowance; upstreams that do not report themselves ready get no traffic. Settings that cannot work are refused at start.",
["inputs","histories","configurations"],"all request bodies, client addresses, rates, readiness histories and settings",
"Tests send a few fixed bodies.",
["bin/worker-gateway/src/error.rs","bin/worker-gateway/src/ratelimit.rs","bin/worker-gateway/src/readiness.rs","bin/worker-gateway/src/proxy.rs","bin/worker-gateway/src/config.rs","bin/worker-gateway/src/cli.rs"],
[("error replies","bin/worker-gateway/src/error.rs"),("rate limits","bin/worker-gateway/src/ratelimit.rs"),("readiness","bin/worker-gateway/src/readiness.rs")],
"replies and admissions",None,"a binary: its sources are built as a library")

p("M01","Metrics keep their names, labels and values",
"Every metric the node records appears under its own name, every metric of an embedded library under the reth prefix, each exactly once with its labels, kind and accumulated value, whatever its original name and the order of registration and recording, and descriptions attach to the same name. Distributions are counted in the documented buckets. Installing the recorder again, also concurrently, yields the same recorder; recording never panics and never mixes two metrics.",
["inputs","histories"],"all metric names, labels, kinds and sequences of recordings",
"Tests record three fixed metrics.",
["crates/tn-metrics/src/recorder.rs"],
[("prefixing recorder","crates/tn-metrics/src/recorder.rs")],
"rendered metrics")

p("X01","Execution of a committed output is the same on every node",
"Executing the same committed outputs from the same genesis gives every node the same chain of blocks with the same state roots, fees and rewards, and every batch's transactions are executed once in order. A node that restarts re-executes nothing that was finalised.",
["histories","crash_points"],"all sequences of committed outputs and restart points",
"Needs the execution engine, which no stable test runs here.",
["crates/engine/src/lib.rs","crates/engine/src/payload_builder.rs","crates/tn-reth/src/lib.rs"],
[("output execution","crates/engine/src/payload_builder.rs")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    import os,re
    for fl in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fl): print("missing",x["id"],fl)
    n=len(re.findall(r"\.(?=\s|$)",x["statement"]))
    if n>3: print(x["id"],n)
print(len(P))
