#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x} for x in state if x != "none"]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Cross-shard deposits are credited exactly once and in order",
  "A cross-shard transfer carried by a source-shard block that a root block confirms is credited to its recipient on the destination shard exactly once, in the order root block, then block within the root block, then transfer within the block, no matter how root blocks group the source blocks, how many root blocks one destination block spans, or where a destination block stops because its cross-shard gas budget is used up. Nothing is credited for source blocks that no root block on the followed root chain confirms.",
  ["histories", "inputs"], "every grouping of deposits into source blocks and root blocks, every per-block gas budget, every choice of how far each destination block advances, within small bounds",
  "Whether a deposit is lost or repeated depends on the exact boundary at which a block stops and the next resumes; tests sample two or three boundaries, while the guarantee is over all of them.",
  ["core/xshard_tx_cursor.go", "core/minorblockchain_addon.go", "core/state_processor.go", "core/rawdb/accessors_chain.go", "core/types/cross_shard_transaction.go"],
  [("cursor", "core/xshard_tx_cursor.go: XShardTxCursor.getNextTx"), ("running deposits", "core/minorblockchain_addon.go: runCrossShardTxWithCursor"), ("deposit execution", "core/state_processor.go: ApplyCrossShardDeposit")],
  ["cursor position stored in each block's meta", "deposit lists stored per source block"], ["recipient balances", "cursor in block meta", "receipts"])

p("C02", "Transactions and blocks conserve every token",
  "Executing any sequence of transactions and cross-shard deposits never creates or destroys any token: the sum of balances per token after a block equals the sum before, plus deposits received, minus transfers sent to other shards, plus the block reward, minus only what protocol rules burn. A sender is debited exactly value plus gas price times gas used, fees go to the miner at the configured local rate, and a transaction that is rejected or whose execution fails moves no value.",
  ["inputs", "histories"], "all short sequences of transfers, contract calls, failing calls and cross-shard sends over tiny value, gas and token domains",
  "An accounting error appears only for particular combinations of token, gas limit, refund and failure; tests assert on some balances of some combinations.",
  ["core/state_transition.go", "core/state_processor.go", "core/vm/evm.go", "core/minorblock_validator.go", "core/minorblockchain_addon.go"],
  [("gas purchase, refund, fee", "core/state_transition.go"), ("deposit execution", "core/state_processor.go"), ("block reward", "core/minorblockchain_addon.go: Finalize paths")],
  ["account token balances"], ["sum of balances per token", "coinbase amount in headers"])

p("C03", "A shard's head always follows the heaviest root chain",
  "After any sequence of root-block and minor-block arrivals, the shard's followed root block is the one with the greatest total difficulty accepted so far, the shard's head descends from the last minor block of this shard confirmed by that root chain, and the head never refers to a root block outside that root chain. A newly arrived minor block becomes the head exactly if it is eligible (its root reference is on the followed root chain and it descends from the last confirmed block) and either extends the head, is higher than it, or is equally high but refers to a later root block.",
  ["histories"], "all arrival orders of the blocks of small root/minor block trees, including forks of both chains and confirmations of losing minor forks",
  "The outcome depends on the arrival order of two mutually referencing block trees; the number of orders is far beyond what examples cover.",
  ["core/minorblockchain_addon.go", "core/minorblockchain.go"],
  [("root arrival", "core/minorblockchain_addon.go: AddRootBlock"), ("tip choice", "core/minorblockchain_addon.go: updateTip"), ("rewind", "core/minorblockchain.go: setHead/reorg")],
  ["rootTip", "confirmedHeaderTip", "currentBlock"], ["head of the shard", "followed root block"])

p("C04", "Shard indexes always describe the current canonical chain",
  "After any sequence of insertions, forks and reorganisations, looking up a block by number returns exactly the ancestor of the head at that height and nothing above the head; a transaction or receipt lookup finds a transaction if and only if it is in the canonical chain and returns the block and index holding it, and the address history lists exactly the canonical transactions that touch the address.",
  ["histories"], "all insertion orders of small forked block trees with transactions shared between, or exclusive to, branches",
  "A stale index entry shows up only after specific reorganisation shapes (shorter or longer branch, shared transactions, repeated switches).",
  ["core/minorblockchain.go", "core/minorblockchain_addon.go", "core/rawdb/accessors_chain.go", "core/rawdb/accessors_indexes.go"],
  [("reorg", "core/minorblockchain.go: reorg"), ("tx index", "core/minorblockchain_addon.go: putTxIndexFromBlock/removeTxIndexFromBlock"), ("history", "core/minorblockchain_addon.go: GetTransactionByAddress")],
  ["number to hash table", "transaction lookup entries", "address history entries"], ["GetBlockByNumber", "GetTransactionByHash", "GetTransactionReceipt", "GetTransactionByAddress"])

p("C05", "The root chain follows the greatest total difficulty",
  "After any sequence of root-block insertions the head of the root chain is a block with the greatest total difficulty among all inserted blocks, ties prefer the lower block and then the earlier head, and looking up a block by number returns exactly the head's ancestor at each height. Validated minor headers, the per-shard latest confirmed headers and the production counters reported for the head are functions of the head's ancestry alone, whatever order blocks arrived in.",
  ["histories"], "all insertion orders of all small root-block trees with several difficulties",
  "Each example test fixes one tree and order; the property is about all of them, in particular forks of unequal length and weight.",
  ["core/rootblockchain.go", "core/rootheaderchain.go", "core/rawdb/accessors_chain.go"],
  [("fork choice", "core/rootblockchain.go: WriteBlockWithState"), ("reorg", "core/rootblockchain.go: reorg"), ("confirmed headers", "core/rootblockchain.go: GetLatestMinorBlockHeaders")],
  ["current head", "number to hash table", "total difficulty"], ["CurrentBlock", "GetBlockByNumber", "GetBlockCount"])

p("C06", "Invalid minor blocks are never accepted",
  "A shard accepts a minor block only if every field of it is what the protocol determines from its parent, its transactions and the root chain it refers to: any block that differs from a valid one in a single field or body item (height, version, branch, parent, root reference, coinbase, gas limits, time, difficulty, extra data, roots, bloom, gas used, cursor, transactions) so as to break a rule is rejected and leaves the head, the state and the lookups unchanged.",
  ["inputs"], "every single-field mutation, from an enumerated menu of values, of every valid block of a family of scenarios",
  "Tests exercise some rules once; a weakened comparison (off by one, missing field) accepts only specific mutants.",
  ["core/minorblock_validator.go", "core/minorblockchain.go", "core/minorblockchain_addon.go", "core/types/minorblock.go", "consensus/consensus.go"],
  [("body and header rules", "core/minorblock_validator.go: ValidateBlock"), ("state rules", "core/minorblock_validator.go: ValidateState"), ("seal", "core/minorblock_validator.go: ValidatorSeal")],
  ["head", "state root"], ["error returned by insertion", "head after insertion"])

p("C07", "Invalid root blocks are never accepted",
  "The root chain accepts a root block only if every field is what the protocol determines from its parent and body, and only if the minor headers in its body are all validated by shards, grouped by shard in ascending order, each shard's headers form a linked chain extending that shard's last confirmed header on this root fork, refer to root blocks on this root fork, are not later than the root block, belong to an initialised shard and respect the per-shard limit. Every single-field or single-item deviation is rejected and leaves the head unchanged.",
  ["inputs", "histories"], "every enumerated mutation of header fields and body of valid root blocks in a family of scenarios",
  "Tests exercise some of the rules once; a weakened rule accepts only specific mutants.",
  ["core/rootblock_validator.go", "core/rootblockchain.go", "core/types/rootblock.go"],
  [("validator", "core/rootblock_validator.go: ValidateBlock/ValidateHeader"), ("coinbase", "core/rootblockchain.go: CalculateRootBlockCoinBase")],
  ["head", "validated minor header set"], ["error returned by insertion", "head after insertion"])

p("C08", "Every block a node builds is valid and reproducible",
  "A block built for mining from any reachable chain and transaction pool state, once finalised, is accepted by the same shard and by an independently built shard that received the same blocks, both ending with the same head, state, receipts and cross-shard output. A block built this way never exceeds its gas limits and skips, rather than breaks on, pool transactions that cannot execute.",
  ["histories", "inputs"], "all short histories of pool submissions, root arrivals and mining, replayed on a second independent instance",
  "Builder and verifier are separate code paths that agree on tested blocks; a disagreement needs a particular mix of transactions, deposits and limits.",
  ["core/minorblockchain_addon.go", "core/minorblockchain.go", "core/state_processor.go", "core/rootblockchain.go"],
  [("builder", "core/minorblockchain_addon.go: CreateBlockToMine/FinalizeAndAddBlock"), ("root builder", "core/rootblockchain.go: CreateBlockToMine"), ("verifier", "core/minorblockchain.go: InsertChain")],
  ["head", "state root"], ["acceptance by the second instance"])

p("C09", "A crash at any database write leaves a recoverable chain",
  "If the process stops between any two database writes while a shard or the root chain inserts blocks, reorganises or processes a root block, reopening the database succeeds, yields a head whose block and state are complete and which was the head at some point of the uninterrupted run, never reports a block as fully committed when its data is not all readable, and re-submitting the interrupted blocks brings the chain to the same head as an uninterrupted run.",
  ["crash_points", "histories"], "every prefix of the sequence of database writes of every short history",
  "A test cannot stop the process between two writes; the order of the writes is exactly what the guarantee rests on.",
  ["core/minorblockchain.go", "core/minorblockchain_addon.go", "core/rootblockchain.go", "core/rawdb/accessors_chain.go"],
  [("block commit order", "core/minorblockchain.go: WriteBlockWithState"), ("startup", "core/minorblockchain.go: loadLastState, core/minorblockchain_addon.go: InitFromRootBlock"), ("root commit", "core/rootblockchain.go: WriteBlockWithState")],
  ["database contents"], ["head after reopening", "HasBlock", "state of head"])

p("C10", "The transaction pool offers exactly the executable transactions",
  "After any sequence of additions, replacements and block arrivals or reorganisations, the pool's executable transactions of each sender form a gap-free run of nonces starting at the sender's nonce in the head state, every one of them is affordable and within the limits, no transaction is both executable and queued, a replacement is taken only for a sufficient price increase, and a transaction dropped from the chain by a reorganisation returns to the pool.",
  ["histories"], "all operation sequences up to a bound over a few senders, nonces, prices and head changes, against a reference pool",
  "The pool is a state machine; tests check some sequences.",
  ["core/tx_pool.go", "core/tx_list.go", "core/tx_noncer.go"],
  [("admission", "core/tx_pool.go: validateTx/add"), ("promotion", "core/tx_pool.go: promoteExecutables/demoteUnexecutables/reset"), ("lists", "core/tx_list.go")],
  ["pending", "queue", "lookup of all"], ["Pending", "Content", "State nonce", "errors"])

p("C11", "Stake reduces mining difficulty only as the staking rule allows",
  "For every chain and every miner, the number of blocks a miner is counted to have produced in the staking window equals the number of such blocks among the window's ancestors of the parent, whatever fork was examined before; difficulty is reduced exactly when stake divided by the per-block requirement exceeds that count, by exactly the configured factor; and stake of current window miners beyond what is free cannot be moved out by a transaction.",
  ["histories", "inputs"], "all small block trees, miners and stakes, and all orders of querying their tips",
  "The window is cached incrementally; a wrong reuse shows only for a particular order of fork queries.",
  ["consensus/posw/posw.go", "core/minorblockchain_addon.go", "core/minorblock_validator.go", "core/rootblockchain.go", "core/state_transition.go"],
  [("window", "consensus/posw/posw.go: GetPoSWInfo/BuildSenderDisallowMap/countCoinbaseBlockUntil"), ("shard use", "core/minorblockchain_addon.go: PoSWDiffAdjust"), ("sender lock", "core/state_transition.go: TransitionDb")],
  ["window cache"], ["adjusted difficulty", "disallow map"])

p("C12", "Every message and record survives encode and decode",
  "Encoding any block, header, transaction, deposit list, token balance, cluster or peer message and decoding the bytes yields an equal value with the same hash and consumes exactly the bytes written; two different values never share an encoding. Decoding arbitrary, truncated or altered bytes returns an error or a value, and never crashes or reads beyond the input.",
  ["inputs"], "every value of each type over small field domains including extreme values; every truncation and every single-byte alteration of an encoding",
  "Round-trip tests fix one value per type; boundary lengths, empty lists, optional fields and damaged inputs are unbounded.",
  ["serialize/serializer.go", "serialize/deserializer.go", "serialize/typecache.go", "serialize/bytebuffer.go", "core/types/token.go", "core/types/cross_shard_transaction.go", "core/types/transaction.go", "core/types/minorblock.go", "core/types/rootblock.go", "p2p/p2p_commands.go", "cluster/rpc/grpc_types.go"],
  [("reflective codec", "serialize/"), ("versioned deposits", "core/types/cross_shard_transaction.go"), ("token balances", "core/types/token.go")],
  ["none"], ["decoded value, remaining bytes, error"])

p("C13", "The account state behaves like a map with exact undo",
  "For every sequence of state operations (token balance changes, nonce, code, storage, creation, self-destruction, logs, refunds, snapshot, undo, finalise, copy, commit and reopen), reads return what the latest effective writes stored, undoing to a snapshot restores exactly what was readable when it was taken, a copy and its original never influence each other, and the state root depends only on the effective writes, not on undone ones or on reads, including for accounts that hold many tokens.",
  ["histories", "inputs"], "all operation sequences up to a bound over two addresses, few keys and tokens, and token counts on both sides of the storage switch",
  "The journal, caches and the two token representations interact only along particular sequences.",
  ["core/state/statedb.go", "core/state/state_object.go", "core/state/journal.go", "core/types/token.go", "core/state/database.go"],
  [("undo", "core/state/journal.go"), ("objects", "core/state/state_object.go"), ("token storage", "core/types/token.go: TokenBalances")],
  ["live objects, journal, tries"], ["all getters, root hash"])

p("C14", "Shard routing and token naming are total and consistent",
  "Every full shard key of a configured chain maps to exactly one configured shard, sender-, recipient- and contract-side computations of it agree, a transaction is executed locally if and only if both ends map to the same shard, and the neighbour relation that decides which shards receive a block's cross-shard lists is symmetric and reaches every shard. Token names and token identifiers correspond one to one, and addresses, branches and shard identifiers convert to text or bytes and back without change.",
  ["inputs"], "all shard-size configurations up to a bound, all keys of a reduced key space, all names up to a length and the extremes of the identifier range",
  "These are relations over whole spaces of keys and configurations.",
  ["account/address.go", "account/account.go", "account/branch.go", "cluster/config/config.go", "common/token_codec.go", "core/types/transaction.go"],
  [("routing", "cluster/config/config.go: GetFullShardIdByFullShardKey"), ("neighbours", "account/branch.go, account/neighbor.go"), ("token codec", "common/token_codec.go")],
  ["configuration"], ["return values"])

p("C15", "Difficulty, rewards and limits follow the published formulas",
  "For every parent and timestamp the next difficulty equals the configured adjustment formula and is never below the minimum, block rewards decay per epoch exactly as configured, a root block's reward equals the base reward plus the configured share of the confirmed minor rewards, gas limits move only within the allowed range, and the minor-block and root-block builders and validators use the same values.",
  ["inputs"], "all parents, time gaps, uncles and epochs over domains chosen around every breakpoint of the formulas",
  "Tests check a few points; errors at breakpoints (cut-off, epoch edge, minimum) change one point only.",
  ["consensus/difficulty.go", "core/minorblockchain_addon.go", "core/rootblockchain.go", "core/common.go", "cluster/config/config.go", "core/rootblock_validator.go"],
  [("difficulty", "consensus/difficulty.go"), ("epoch reward", "core/minorblockchain_addon.go: getCoinbaseAmount"), ("root reward", "core/rootblockchain.go: CalculateRootBlockCoinBase")],
  ["none"], ["computed difficulty, amounts, limits"])

p("C16", "Synchronisation adopts only a linked, better chain from any peer",
  "Whatever a peer answers (correct, short, empty, reordered, unlinked, invalid or failing), synchronising with it ends, never crashes, and adds blocks only in parent-first order starting from a block the node already has; with an honest peer whose chain is heavier it ends with that chain adopted, and a peer whose chain is not better, or answers wrongly, changes nothing.",
  ["inputs", "histories", "fault_sequences"], "all answers from a menu at every request of a synchronisation run, up to a bounded number of deviations, over small pairs of chains",
  "A test scripts one answer sequence; the guarantee is over all of them.",
  ["cluster/sync/root_task.go", "cluster/sync/minor_task.go", "cluster/sync/task.go", "cluster/sync/sync.go"],
  [("root sync", "cluster/sync/root_task.go"), ("minor sync", "cluster/sync/minor_task.go"), ("scheduler", "cluster/sync/sync.go")],
  ["task queue per peer"], ["blocks handed to the chain, error"])

p("C17", "A minor block is acknowledged only after its effects are shared",
  "A shard reports a minor block as added only after its cross-shard list has been delivered to every neighbouring shard that needs it and the master has been told of it; whatever step fails and however calls overlap or are retried, a block that was not acknowledged is not counted as committed, a retry completes the missing steps, and blocks are delivered to the master parent first.",
  ["fault_sequences", "schedules", "histories"], "a failure at every outgoing call of adding and retrying short chains of blocks, singly and in batches, and overlapping calls",
  "It needs a failure at one particular point and then a particular retry.",
  ["cluster/shard/api_backend.go", "cluster/shard/shard.go", "cluster/slave/conn_manager.go", "cluster/slave/api_backend.go"],
  [("single add", "cluster/shard/api_backend.go: AddMinorBlock"), ("batch add", "cluster/shard/api_backend.go: AddBlockListForSync"), ("broadcast", "cluster/slave/conn_manager.go")],
  ["commit marker of blocks", "deposit lists stored on the neighbour"], ["calls to neighbours and master", "return value", "commit status"])

p("C18", "Message handlers answer any peer request safely and correctly",
  "For every well-formed request a peer can send about headers, blocks or transactions (by hash or height, any direction, skip and limit), the node answers with exactly the canonical items asked for in the order asked for, bounded by the request limit, or with an error; a peer's announcements only ever move its recorded tip forward, and no request or announcement crashes the node.",
  ["inputs", "histories"], "all combinations of request fields around the boundaries of a small chain, and all short sequences of announcements",
  "The cross product of direction, skip, limit and position around the ends of the chain is where handlers go wrong.",
  ["cluster/master/handle.go", "cluster/shard/api_backend.go", "cluster/slave/api_backend.go", "p2p/p2p_commands.go"],
  [("root header queries", "cluster/master/handle.go"), ("minor header queries", "cluster/slave/api_backend.go")],
  ["peer head"], ["responses"])

p("C19", "Only fresh, correctly sealed work is turned into a block",
  "A remotely submitted solution produces a block if and only if it matches work this node handed out that is still fresh, and the solution meets the work's difficulty, with the reduced difficulty applied exactly when a valid guardian signature or stake entitles it; the sealed block differs from the work only in nonce and mix, each miner is handed work for its own address, and seal verification gives the same verdict whether or not it was asked before. Starting and stopping mining, new heads and failures while creating or sealing a block never block the node or leave it without current work.",
  ["histories", "inputs"], "all short sequences of obtaining work, new heads, submissions (right, wrong, stale, repeated) and verifications",
  "Caches of work and of verification results make the answer depend on the history.",
  ["consensus/remote.go", "consensus/consensus.go", "consensus/doublesha256/double256.go", "consensus/qkchash/sealer.go", "consensus/ethash/qethash.go", "cluster/miner/miner.go"],
  [("work table", "consensus/remote.go"), ("seal check", "consensus/consensus.go: VerifySeal"), ("miner", "cluster/miner/miner.go")],
  ["current works, verified header cache"], ["submission result, emitted blocks"])

p("C20", "Log queries return exactly the matching canonical logs",
  "A log query over any block range, address set and topic pattern returns exactly the logs of canonical blocks in that range that match, in block, transaction and log order; the per-block bloom filter never hides a matching log, and receipts, logs and bloom stored for a block equal those of executing it.",
  ["inputs", "histories"], "all address/topic patterns over a small alphabet, all ranges over short chains with logs, including after a reorganisation",
  "Bloom filters only ever cause missed results, for particular values and positions.",
  ["core/filter.go", "core/types/bloom9.go", "core/types/receipt.go", "core/types/log.go"],
  [("filter", "core/filter.go"), ("bloom", "core/types/bloom9.go")],
  ["stored receipts"], ["logs returned"])

p("C21", "Only the holder of the sender's key can spend, on this network only",
  "The sender derived from a transaction is the address of the key that signed exactly these contents: changing any signed field, the network identifier, or the signature changes the sender or makes the transaction invalid, for every supported signature version, and the transaction's identity hash is unique to its contents and signature. A transaction whose sender's shard, network or nonce does not fit the shard is never executed there.",
  ["inputs"], "every single-field alteration of signed transactions of every version over small field domains",
  "The set of signed fields per version is what matters; one omitted field is invisible to round-trip tests.",
  ["core/types/transaction_signing.go", "core/types/transaction.go", "core/state_processor.go", "core/minorblockchain_addon.go"],
  [("signing hash", "core/types/transaction_signing.go"), ("validation", "core/state_processor.go: ValidateTransaction, core/minorblockchain_addon.go: validateTx")],
  ["cached sender and hash"], ["Sender, Hash, validation result"])

p("C22", "Contracts can move native tokens only as the rules allow",
  "The built-in contracts for native tokens (query of the current token, transfer of a token by a contract, minting, root-chain staking) and ordinary calls move tokens only as specified: a call that fails, lacks gas or is made where state may not change leaves all balances and storage unchanged and consumes gas as specified, minting is possible only for the authorised caller, and a token transferred from inside a contract is debited and credited exactly once.",
  ["inputs", "histories"], "all combinations of caller, token, value, gas, call kind and input length from small menus",
  "Failure inside nested calls combined with token and gas boundaries is a product space.",
  ["core/vm/contracts.go", "core/vm/evm.go", "core/vm/instructions.go"],
  [("built-ins", "core/vm/contracts.go"), ("call/create", "core/vm/evm.go")],
  ["account balances and storage"], ["return data, gas left, balances"])

p("C23", "What is stored in the chain database is read back, record by record",
  "For every sequence of writes and deletions of the records of the chain database (headers, blocks, receipts, heights, heads, indexes, cross-shard lists, confirmations, counters, markers, bloom bits, …), directly or in batches, on disk or in memory, each record is read back exactly as last written and no operation on one record changes another; a batch takes effect entirely when written and not before, buffers handed in or out can be reused by the caller, iteration is in key order, and the contents survive closing and reopening.",
  ["histories"], "all sequences of record operations up to a bound, and all store operation sequences over colliding keys",
  "Key collisions between kinds of records, aliasing, batch reuse and deletion of the wrong part depend on combinations of operations no test lists.",
  ["core/rawdb/accessors_chain.go", "core/rawdb/accessors_indexes.go", "core/rawdb/accessors_metadata.go", "core/rawdb/schema.go", "qkcdb/leveldb.go", "cluster/service/memorydatabase.go"],
  [("records", "core/rawdb/"), ("store", "qkcdb/")],
  ["database"], ["record readers, Get/Has/iteration"])

p("C24", "A root block takes effect on all shards or is recovered",
  "When the master adds a root block, the block is stored and then delivered to every shard before the next one starts, in chain order; whatever fails or crashes in between, the intention is recorded before the block is stored and cleared only after every shard has it, so that a restarted master can deliver it again. The master proposes a root block only from minor headers that shards have reported and still consider valid, in shard order and parent first.",
  ["fault_sequences", "crash_points", "histories"], "a failure at every shard call for every short sequence of root blocks and forks, and every combination of reported header lists",
  "It needs a failure between particular steps and observing persistent state there.",
  ["cluster/master/backend.go", "cluster/master/slave_connection.go", "core/rootblockchain.go"],
  [("add", "cluster/master/backend.go: AddRootBlock"), ("proposal", "cluster/master/backend.go: createRootBlockToMine")],
  ["committing marker"], ["calls to shards, marker, proposal"])

p("C25", "Queries about any past height answer for that height",
  "Balance, nonce, code, storage, call and gas-estimate queries answer from the state of the block they name (by height, or the head if none is named), executing a query changes no state, the gas estimated for a call is enough for it and one unit less is not, and the receipt of an executed transaction reports the gas, status, logs and contract address of its execution.",
  ["inputs", "histories"], "every height of short chains for every query kind, and every contract call of a menu for estimates",
  "The answer depends on height and state; tests query the head.",
  ["core/minorblockchain_addon.go", "core/minorblockchain.go", "cluster/slave/api_backend.go"],
  [("state at height", "core/minorblockchain_addon.go: getEvmStateByHeight"), ("estimate", "core/minorblockchain_addon.go: EstimateGas")],
  ["state tries"], ["query results"])

p("C26", "JSON-RPC answers report what the chains hold, wherever the question is asked",
  "A question put to the cluster's public JSON interface is answered from the canonical chain of the shard it concerns, whichever slave runs that shard and in whichever equivalent form (by hash, by height, by transaction identity, by address with any shard key of the shard, with optional arguments given or left out) it is asked: blocks, transactions, receipts, logs, accounts, code, storage, calls, root blocks and their confirmations are as stored, transaction lists page through the whole history newest first without loss or repetition, something unknown or malformed is refused or answered null, and a submitted transaction reaches exactly the shards' nodes of its sender's address.",
  ["histories", "inputs"], "short histories of a whole cluster with a fork, cross-shard traffic, confirmations and a root chain reorganisation, asked every question in every form",
  "The answer crosses five layers (JSON server, master, wire, slave, chain) and depends on the history; unit tests cover single layers at single heights.",
  ["internal/qkcapi/api.go", "internal/qkcapi/common.go", "cluster/master/backend.go", "cluster/master/slave_connection.go", "cluster/slave/slave_grpc.go", "core/minorblockchain_addon.go"],
  [("questions", "internal/qkcapi/api.go"), ("routing", "cluster/master/backend.go"), ("lists", "core/minorblockchain_addon.go: getTransactionDetails"), ("confirmation", "core/rootblockchain.go: GetRootBlockConfirmingMinorBlock")],
  ["chains of all shards, transaction history index, confirmation index"], ["JSON answers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
