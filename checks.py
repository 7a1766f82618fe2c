CHECKS = {}
def check(prop, level, technique, note, harnesses, rule="", assumptions=(), budget=None):
    CHECKS[prop] = dict(level=level, technique=technique, note=note, harnesses=harnesses, rule=rule, assumptions=list(assumptions), budget=budget or {})
def H(pkg, files, run, **k):
    return dict(pkg=pkg, files=files, run=run, **k)

check("C13", "model_checking", "exhaustive operation sequences on the real state database against a reference map model",
      "Every sequence of the listed operations up to the stated depth, from four initial states, is executed on the real code and compared with a map model after every step; longer sequences and other values are not covered.",
      [H("core/state", ["c13_test.go"], "TestVerifC13")])
check("C01", "model_checking", "exhaustive enumeration of root-block contents, gas limits and add/mine schedules on the real shard chain against a delivery model",
      "Every listed content of three root blocks, every order of adding them and mining, every fork pattern up to the stated size is executed on the real chain; longer histories and other deposit shapes are not covered.",
      [H("core", ["common_test.go", "c01_test.go"], "TestVerifC01")])
check("C03", "model_checking", "exhaustive delivery orders of a fork graph of root and minor blocks to the real shard chain against a fork-choice model",
      "Every order of delivering (and re-delivering) the blocks of the listed fork graphs is executed on the real chain, merging states whose complete database, head and root tip are equal; other graphs are not covered.",
      [H("core", ["common_test.go", "dag_test.go"], "TestVerifC03")])
check("C04", "model_checking", "exhaustive delivery orders of a fork graph of root and minor blocks to the real shard chain, every lookup compared with the head's ancestry",
      "Every order of delivering (and re-delivering) the blocks of the listed fork graphs is executed on the real chain, merging states whose complete database, head and root tip are equal; other graphs are not covered.",
      [H("core", ["common_test.go", "dag_test.go"], "TestVerifC04")])
check("C05", "model_checking", "exhaustive root-block trees and delivery orders on the real root chain against a total-difficulty model",
      "Every tree of the stated number of root blocks with the listed works, in every delivery order, is executed on the real chain; deeper trees are not covered.",
      [H("core", ["common_test.go", "dag_test.go", "root_test.go"], "TestVerifC05")])

check("C07", "model_checking", "exhaustive root-block bodies and header-field deviations offered to the real root chain against an independent validity predicate",
      "Every body of up to the stated number of headers from a pool of valid and deviating headers, on two root forks, and every combination of up to three (thorough: four) deviating header fields is offered to the real chain with real double-SHA256 seals; other values are not covered.",
      [H("core", ["common_test.go", "dag_test.go", "root_test.go", "c07_test.go"], "TestVerifC07")])

check("C06", "model_checking", "exhaustive field deviations and transaction lists offered to the real shard chain against an independent validity predicate",
      "Every combination of up to two (thorough: three) deviating header, meta or body fields of a block on a small fork graph with real double-SHA256 seals, and every list of up to two (three) transactions from a pool of valid and rule-breaking ones, is offered to the real chain; other values are not covered.",
      [H("core", ["common_test.go", "dag_test.go", "root_test.go", "c07_test.go", "c06_test.go"], "TestVerifC06")])

check("C10", "model_checking", "exhaustive sequences of pool additions and chain movements on the real pool and shard chain against a model of the pool",
      "Every sequence of the stated number of additions (from a list of transactions and batches), blocks, forks and root-driven reorganisations is executed on the real pool and chain, merging states with equal head and pool content, and every lookup is compared with a model; longer sequences and other transactions are not covered.",
      [H("core", ["common_test.go", "c10_test.go"], "TestVerifC10")])

check("C08", "model_checking", "exhaustive sequences of pool additions, root blocks with arrivals and block building on two real shard chains, builder and verifier",
      "Every sequence of the stated number of pool additions, root blocks with arrivals, built blocks and restarts, followed by two built blocks, is executed on a real builder and an independent real verifier, which must agree on everything; other transactions and longer sequences are not covered.",
      [H("core", ["common_test.go", "c10_test.go", "c08_test.go"], "TestVerifC08")])

check("C09", "model_checking", "exhaustive crash points: every prefix of the database writes of every delivery history of a fork graph, reopened and recovered on the real chains",
      "Every history of deliveries of the listed fork graphs (merging equal states) is cut at every database write (a batch being one write) of its last delivery, reopened, recovered from the root chain's head and re-submitted on the real code; writes torn inside one put or batch are not covered (the store's own guarantee).",
      [H("core", ["common_test.go", "dag_test.go", "root_test.go", "c09_test.go"], "TestVerifC09")])

check("C02", "model_checking", "exhaustive sequences of transactions and arrivals on the real shard chain against an independent ledger",
      "Every sequence of the stated number of items (transfers, calls, creations, sends to other shards, arrivals, root rewards; grouped into blocks in every way) is executed on the real chain and every account's balance of every token compared with an independent ledger after each block; other values and contracts are not covered.",
      [H("core", ["common_test.go", "c02_test.go"], "TestVerifC02")])

check("C22", "model_checking", "exhaustive contract call trees and built-in calls on the real virtual machine and state against a token model",
      "Every combination of the listed callers, tokens, values, call kinds, built-in inputs, gas limits and endings for call trees of two contracts is executed on the real virtual machine and every balance and written slot compared with a model; deeper trees and other inputs are not covered.",
      [H("core", ["common_test.go", "c02_test.go", "c22_test.go"], "TestVerifC22")])
check("C16", "model_checking", "exhaustive chain shapes and wrong peer answers against the real synchronisation tasks, and exhaustive task-queue schedules on the real synchroniser",
      "Every listed combination of own chain length, fork point and peer chain with an honest peer, and every combination of up to two (thorough: three) wrong answers, once or for ever, with a lying one, is run on the real tasks over a stand-in chain that records every block handed to it; block validity itself is C06's and C07's matter.",
      [H("cluster/sync", ["c16_test.go"], "TestVerifC16")])
check("C17", "model_checking", "exhaustive histories with faults and crashes at every outgoing call of the real shard adding blocks, and of the real connection manager sharing them",
      "Every history of the stated number of additions (single, batch, announced) of the blocks of a fork graph, with up to the stated number of failing or lost calls and process crashes at outgoing calls or database writes, and every pair of overlapping calls, is executed on the real shard; other graphs are not covered.",
      [H("cluster/shard", ["c17_test.go"], "TestVerifC17"), H("cluster/slave", ["c17_test.go"], "TestVerifC17Slave")])
check("C24", "model_checking", "exhaustive histories of root blocks with faults and crashes at every shard call and database write of the real master, and exhaustive reported header lists",
      "Every history of the stated number of root block additions of a fork graph (including invalid and unlinked ones), with up to the stated number of failing or lost shard calls and crashes before a database write, and restarts with faults of their own, is executed on the real master with stand-in slaves; every pair of overlapping additions; and every listed combination of reported headers.",
      [H("cluster/master", ["c24_test.go"], "TestVerifC24")])
check("C18", "model_checking", "exhaustive product of request fields around the ends of a forked chain, all announcement sequences to a depth, every one-byte change of every message, all response sequences, on the real handlers",
      "Every combination of the stated boundary values of type, position, direction, limit and skip is asked of the real root and minor handlers and compared with an independent answer; every sequence of announcements to the stated length; every one-byte change (to the stated values) and every cut of a message of each type; every sequence of responses before the proper one; every hello. Message bytes further from a proper message, and longer sequences, are not covered.",
      [H("cluster/master", ["c24_test.go", "c18_test.go"], "TestVerifC18(Root|Tips|Messages|Answers|Handshake)"),
       H("cluster/slave", ["c17_test.go", "c18_test.go"], "TestVerifC18Slave")])
check("C12", "model_checking", "exhaustive enumeration of all values within a bounded number of fields from the typical value of every message and record type, and of every truncation and one-byte change of their encodings, on the real codecs",
      "Every message and record type is built from boundary domains (0, 1, maximum, absent, empty, 255/256/65535/65536 long, …), with up to the stated number of leaves away from the typical value; each value is encoded and decoded by the real code and compared by an independent dump, its encoding must belong to no other explored value, every truncation must be refused and every listed one-byte change must be refused or give a value that itself survives. Values further away, and changes of several bytes, are not covered.",
      [H("cluster/rpc", ["c12_test.go"], "TestVerifC12(Codecs|Records|Legacy)"),
       H("p2p", ["c12_test.go"], "TestVerifC12Wire")])
check("C19", "model_checking", "exhaustive enumeration of sequences of new work, new heads, submissions and verifications on the real sealing engine, and of interleavings of the real miner's loops with its callers at every call it makes",
      "Engine: all sequences up to the bound of work for three miners and new heads, with every submission of a menu (work × nonce quality × signature) observed after each, compared with a table model and independently computed proof of work; all sequences of seal verifications; the three engines' own seals. Miner: all short scripts of start/stop/new head/get work/submit, with up to the stated number of events (creation error, syncing, new head, start or stop) placed at any call the miner makes; a call that never returns or a final state in which no current work is handed out is a violation. Races inside one engine step are not explored.",
      [H("consensus/doublesha256", ["c19_test.go"], "TestVerifC19(Works|Verify)"),
       H("cluster/miner", ["c19_test.go"], "TestVerifC19Miner")])
check("C11", "model_checking", "exhaustive enumeration of block trees and question orders on the real staking window, of short histories of blocks, forks and stake movements on the real shard chain, and of staking answers and signatures on the real root chain",
      "Window: every block tree of the stated size (parents among the last three), miner pattern, window 1..5 and sequence of questions, compared with walking the ancestors; every boundary of stake, count, difficulty divider and boost. Shard: every short history with forks and transfers of stake; after each block the adjusted difficulty of every miner on every block and the outcome of each transfer are compared with a model; a contract with a stake tries every value of a menu by calls, two calls, creation, self-destruction and a nested call after every pattern of up to four blocks (known finding: self-destruction). Root: every staking answer × signature. Windows longer than 5 (except for the grid at 256) and cache eviction are not covered.",
      [H("consensus/posw", ["c11_test.go"], "TestVerifC11Window"),
       H("core", ["common_test.go", "root_test.go", "c11_test.go"], "TestVerifC11(Shard|Root)")])
check("C15", "model_checking", "exhaustive grids of difficulty, times and settings on the real difficulty calculator, and of reward settings, times and confirmed blocks on blocks built by one real chain and judged by another",
      "Every combination of the stated boundary values (parent difficulty, time gap, cutoff, factor, minimum) is computed by the real calculator and compared with an independent formula; for every listed setting of base reward, decay, tax and epoch length, every sequence of time gaps and confirmed blocks to the stated length, blocks are built by the real chain, compared with independent rational arithmetic, and offered (with deviations) to a second real chain with all checks on and real seals. Other values are not covered.",
      [H("consensus", ["c15_test.go"], "TestVerifC15Difficulty"),
       H("core", ["common_test.go", "dag_test.go", "root_test.go", "c07_test.go", "c15_test.go"], "TestVerifC15(Rewards|Times|Root)")])
check("C20", "model_checking", "exhaustive enumeration of short histories of blocks with logs, forks and arrivals on the real shard chain, and on each of all ranges, address sets and topic patterns of a small alphabet",
      "Every history of the stated number of blocks from a menu of log-emitting transactions and arrivals, with a longer fork and the way back; after each, every range over the chain and beyond, eight address sets and all patterns are asked and compared with the logs a model knows the contracts emit, and the announcements of new and removed logs are replayed. Requests: every combination of the listed forms of range, address, topics, shard and block hash through the real decoder and API. Bloom bits are recomputed independently. Longer chains and other topics are not covered.",
      [H("core", ["common_test.go", "c20_test.go"], "TestVerifC20Logs"),
       H("internal/qkcapi", ["c20_test.go"], "TestVerifC20Request")])
check("C14", "model_checking", "exhaustive enumeration of shard-size configurations and keys, of all short token names, of assignments of chains to slaves and of one-position changes of addresses, on the real functions",
      "Every configuration of 1..3 (thorough: 4) chains with shard sizes 1, 2, 4, 8 in every order of listing, uniform ones up to 8×32, and every pair of a menu of keys; every neighbour pair of every chain count and size of a menu up to 256 (2048) shards; all token names up to 4 (5) letters and all longer ones over the ends of the alphabet; every assignment by masks of the stated number; addresses away from three backgrounds in one position. Compared with independent arithmetic. Other keys and addresses are not covered.",
      [H("cluster/config", ["c14_test.go"], "TestVerifC14(Routing|Slaves|Neighbours|Tokens|Forms)")])
check("C21", "model_checking", "exhaustive enumeration of transactions within a bounded number of fields from typical ones, and of every alteration of a bounded number of fields of signed ones, on the real signer and the real shard chain",
      "Every transaction of every signature version with up to 2 (thorough: 3) fields at boundary values is signed through an independent encoder and hash, and its sender, identity hash (unique among all explored) and message compared; every alteration of up to 2 (3) fields, version, network and signature parts must be refused or give another sender. Shard: every transaction with up to 2 (3) of version, network, keys, nonce, signer, tokens, gas, value and signature away from a fitting one is offered to the pool, the builder and the verifier of three shards, and executed exactly when it fits, once. Values outside the menus are not covered.",
      [H("core/types", ["c21_test.go"], "TestVerifC21(Sign|Alter)"),
       H("core", ["common_test.go", "c10_test.go", "c21_test.go"], "TestVerifC21Shard")])
check("C25", "model_checking", "exhaustive enumeration of short forked histories, asking the real slave, its public interface and the chain for every height and block, and of calls of a menu at every gas amount around the estimate",
      "Heights: histories of 3 (thorough 4) blocks out of 6 kinds (empty, transfers of two tokens, failing creation with a store, creation, self-destruct, store and take back), with 1-2 block forks, pruning on and off, on the real shard; a model written from the block kinds says each account's balances, nonce, code and storage after every block; every block (abandoned ones included) is asked by hash and every height including those beyond the head by number, latest, earliest and pending, through the slave and its public filter interface, with calls that return the block's own environment, and receipts and transactions; database, head and state must be what they were before the questions. Estimate: every call of a menu (24 calls x 3 callers x 2 prices x 12 caps, in-shard and cross-shard): an estimate is enough when the transaction is really executed, one less is not, no estimate means it does not run within the cap. Covers up to the stated depth only; the transaction pool's pending nonce is asynchronous and not compared.",
      [H("cluster/slave", ["c17_test.go", "c18_test.go", "c25_test.go"], "TestVerifC25Heights"),
       H("core", ["common_test.go", "c02_test.go", "c25_test.go"], "TestVerifC25Estimate")])

check("C26", "model_checking", "exhaustive enumeration of short histories of a whole in-process cluster, asking the JSON interface every question in every form",
      "Histories of 2 (thorough 3) blocks out of 8 kinds with a fork, a cross-shard arrival, every confirmed height and a root reorganisation abandoning it, on a whole cluster in one process (JSON server, master, slave connections, two slaves of two shards; only the wire is a function call); after each history every question in every equivalent form (identities, heights, keys, optional arguments left out, transaction lists in pages of 1, 2 and 20) is compared with JSON a model builds from the blocks; unknown and malformed questions must be refused.",
      [H("cluster/slave", ["c17_test.go", "c18_test.go", "c25_test.go", "c26_test.go"], "TestVerifC26Queries")])

check("C23", "model_checking", "exhaustive enumeration of operation sequences on the real stores, and of sequences of record writes and deletions through the real accessors, with every record observed after each",
      "Stores: every sequence of 4 (thorough 5) operations in memory and 3 (4) on disk out of put, delete, batch additions, batch write and reset, buffers changed by the caller, reopening (normally, for reading, clean), with every read, existence check and the whole content compared with a map. Records: every sequence of 2 (3) of all writes and deletions of every kind of record of the chain database, and every write or deletion (thorough: pair) in a batch on top of a database holding every record, on both stores; after each, every record of every kind is read and compared with a model that keeps them apart. Ancestors: every tree of 5 (6) headers, every pair.",
      [H("core/rawdb", ["c23_test.go"], "TestVerifC23(Store|Records|Ancestor)")])
