#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

VER="pkg/core/verify.go"; ST="internal/chain/state.go"; CH="internal/chain/chain.go"; INV="internal/inv/inv.go"
prop("C01","Coins are only created by block rewards",
 "On every node, after any history of accepted transactions and blocks, the values of all unspent outputs of the current chain add up to exactly the block reward times the chain height. No transaction or block that would create value is accepted, whatever its amounts, including amounts near the top of the 64-bit range.",
 ["inputs","histories"],"all histories of candidate txs and blocks (forks and reorgs included), all 64-bit input and output amounts",
 "Unit tests only hash and size individual transactions; no test runs a block through validation, and none uses extreme amounts.",
 [VER,ST,"pkg/core/transaction.go"],[("surplus and reward balance checks","Verifier.VerifyTxIsolated / VerifyBlock"),("utxo accounting","State.Advance/Rewind")],
 [("utxo set","unspent outputs at the head","State.utxos, State.pkhUtxos")],["balance / utxo / rich list queries"])
prop("C02","No output is ever spent twice on a chain",
 "Along any chain a node adopts, every output is spent at most once, only after the transaction creating it appears earlier on that same chain, and no transaction is included twice. A block that violates this is never adopted, whichever way it reaches the node (network candidate, own miner, reload from disk, or after a reorganisation).",
 ["inputs","histories"],"all histories of candidate blocks and mempool txs: double spends inside one tx, one block, across blocks, across forks",
 "No existing test exercises chain state at all.",
 [ST,CH,VER],[("utxo availability and inclusion checks","State.VerifyTxIncludable / Advance")],
 [("included txs","block each tx is included in","State.includedTxBlocks")],["utxo, confirms and included-block queries"])
prop("C03","Only the owner can spend an output",
 "A transaction is accepted only if every input names an existing output with its true value, carries a public key hashing to that output's owner, and a valid signature by that key over the transaction's minimum height and outputs; a signature authorises spending only the inputs it was made for. Any change to the outputs, minimum height, key or claimed value, or of the signature to anything but a valid signature by that key, makes the transaction rejected.",
 ["inputs"],"all single-field corruptions and combinations of inputs of otherwise valid transactions with one or more inputs",
 "Tests check one sign/verify pair in isolation, never the acceptance of a transaction.",
 [VER,"pkg/core/crypto.go","pkg/core/transaction.go"],[("signature and owner checks","Verifier.VerifyTx, VerifyTxIsolated, EcdsaVerify, TxHashPreSig")])
prop("C04","The head is the valid chain with the most work",
 "After any sequence of candidate heads, a node's current head is the offered fully valid chain with the greatest total work (work of a block = expected hashes for its target), keeping the first adopted one on a tie. It never moves to a chain with less or equal work or with any invalid block, and each adoption is announced exactly once.",
 ["histories","inputs"],"all sequences of candidate heads over small block trees (ties, longer-but-less-work chains, invalid tips, repeated offers)",
 "No test delivers a candidate head to the chain.",
 [CH,INV,"pkg/core/hasht.go"],[("work comparison","Chain.handleCandidateHead"),("work accumulation","Inv.StoreBlock, HashT.WorkAppendTarget")],None,["ValidatedHead events, head height query"])
prop("C05","Reorganisation equals replaying the chain from scratch",
 "After any sequence of advances and reorganisations, every ledger answer (balances, unspent outputs, confirmations, including block, rich list) equals what a node that only ever saw the current chain would answer. Transactions displaced from an abandoned branch become pending again, can be mined again and can be confirmed again by a later block.",
 ["histories"],"all histories of block deliveries over small trees with forks at every depth, including blocks with chained, conflicting and shared transactions",
 "No test performs a reorganisation; equivalence is over all histories.",
 [ST,CH],[("undo/redo of blocks","State.Rewind, RewindUntil, Advance, Copy")],
 [("ledger","utxos, per-owner utxos, inclusion map, mempool","State")],["balance/utxo/confirms/included-block/rich-list queries, mining targets"])
prop("C06","Bad candidates change nothing and never stop the node",
 "Offering a node any malformed, incomplete, mis-ordered, conflicting or invalid candidate (head, block, merkle node or transaction) leaves its head, ledger answers and mining target equal to what they were apart from individually valid transactions it newly learned, and it goes on processing later candidates and queries. No candidate crashes or hangs the node or prevents a later valid chain or transaction from being accepted.",
 ["inputs","histories"],"all candidate kinds in a mutation alphabet (missing parts, wrong order, wrong links, repeated txs, odd merkle shapes, extreme fields) from every small chain state, followed by valid candidates",
 "Tests never feed invalid input to the chain.",
 [CH,ST,VER,INV],[("copy-then-swap of state","Chain.handleCandidateHead"),("entity verification before storing","Inv.StoreTx/StoreMerkle/StoreBlock")],None,["queries, ValidatedHead/MinerTarget events after the candidate"])
prop("C07","Exactly the well-formed blocks are accepted",
 "A block is accepted if and only if its id beats its target, its parent and whole transaction tree are known, its first and only its first transaction is a coinbase with a single output whose minimum height is the block's height, total outputs equal total inputs plus the block reward, its size is within the limit, its transactions are distinct and spendable in order, and its target and time rules hold. A non-coinbase transaction whose inputs are properly owned and signed likewise is accepted if and only if it is within the size limit, has inputs worth strictly more than its outputs and spends distinct owned outputs.",
 ["inputs"],"all single and double rule violations of a valid block and all small merkle-tree shapes, against an independent rule book",
 "Tests cover hashing of blocks only; no validation rule is tested.",
 [VER,INV,"pkg/core/block.go"],[("block, merkle and tx verification","core.Verifier")])
prop("C08","Difficulty and timestamp rules always hold and are computable",
 "On every accepted chain each block's time is above the median of its previous (up to) five blocks and at most an hour ahead of the node's clock; the first block has the original target, targets change only at period boundaries and by at most a factor of four within the maximum target. From every acceptable chain the next target is defined (never an error or crash) and equals previous target x actual time / desired time clamped to those limits.",
 ["inputs","histories"],"all chains over a small alphabet of block times and boundary targets spanning several difficulty periods; all boundary hash values for target arithmetic",
 "No test builds a chain of blocks, so neither the rules nor the retarget computation are exercised.",
 [VER,"pkg/core/difficulty.go","pkg/core/hasht.go"],[("time and target checks","Verifier.VerifyBlock"),("retarget","NextTarget, ExpectedTargetAdjustment, MaxNextTarget, MinNextTarget")])
prop("C09","Minimum-height locks are respected",
 "A transaction with a minimum block height is never part of an adopted chain at a lower height and never offered for mining at a lower height; once the chain is high enough it can be mined and included. This stays true when reorganisations lower and raise the height.",
 ["histories","inputs"],"all lock heights around the tip crossed with all small histories, including reorganisations and miner templates",
 "No test includes a locked transaction in a block.",
 [ST,"internal/chain/target.go"],[("height checks","State.VerifyTxIncludable, State.Advance")],None,["mining targets, ValidatedHead events"])
prop("C10","Mining templates are valid, conflict-free and greedy by fee",
 "Every set of transactions offered to miners, together with a coinbase, forms a block the node itself would accept on the head it names: all are spendable at that head, mutually conflict-free and within the size limit. Transactions are taken in order of fee rate, and none that pays a fee, is includable, does not conflict with one already taken and still fits is left out.",
 ["histories","inputs"],"all small mempools (conflicts, chains, locks, sizes near the limit, equal rates) in all arrival orders, on every head of small block trees",
 "No test creates a mining target.",
 ["internal/chain/target.go",ST],[("candidate filtering and packing","Chain.CreateMiningTarget, State.GetSortedIncludableMempool")],None,["MinerTarget events"])
prop("C11","Miners publish exactly valid solutions and never stall",
 "Every block a miner publishes beats its target, builds on the head it was last given with exactly the offered transactions, and pays block reward plus their fees to the configured owner in one coinbase output, so the node adopts it when its head has not moved and its clock is past the median time of the last blocks. After any sequence of new heads and transactions, pauses and clock jumps a mining node keeps extending its current head.",
 ["schedules","histories"],"all interleavings (bounded deviations) of miner, chain and incoming candidates, on small networks with easy targets and a controlled clock",
 "No test runs a miner.",
 ["internal/miner/miner.go",CH,"internal/chain/target.go"],[("template update and search","Miner.updateTemplate, mine, publishSolution")],None,["CandidateHead and ValidatedHead events"])
prop("C12","Identifiers pin down content",
 "Two transactions, merkle nodes or blocks that differ in any field have different ids, and ids depend on content only. An entity received from a peer is used only if its content hashes to the id it was requested under.",
 ["inputs"],"all single-field differences and boundary regroupings (moving bytes or items between adjacent fields) of small entities",
 "Tests compare a few fixed hashes.",
 ["pkg/core/hasht.go","pkg/core/block.go","pkg/core/transaction.go","pkg/prot/core.go"],[("hashing","DHashVarious, DHashList, *.Hash"),("id check on receive","Conn.ReadBlock/ReadMerkle/ReadTx")])
prop("C13","The inventory is closed, immutable and safe for concurrent readers",
 "Whenever a reader sees a block, merkle node or transaction in the shared inventory, everything it refers to (parent block, transaction tree, spent outputs) is present too, with correct height, total work and size, and its content never changes afterwards. This holds for readers running concurrently with the writer, with and without disk storage.",
 ["schedules","histories"],"all interleavings (bounded preemptions) of one writer inserting dependent entities and one or two readers, for memory-only and disk-backed inventories",
 "Tests only serialise records; nothing runs readers and the writer together.",
 [INV,"pkg/disksyncmap/disksyncmap.go","pkg/syncmap/syncmap.go"],[("verify-then-store order","Inv.Store*"),("memory-first disk map","DiskSyncMap.Has/Get/Store")])
prop("C14","A node survives a crash at any point",
 "If the process stops at any moment, including in the middle of writing a file, restarting on the same directory brings it up without error on a chain it had previously adopted, with ledger answers matching that chain. It then accepts every valid block and transaction a fresh node would accept, including ones partly stored before the crash.",
 ["crash_points","histories"],"every prefix of the file operations of small histories and every truncation class of the file being written, followed by restart and further valid candidates",
 "No test writes or restores a node directory, let alone crashes.",
 [INV,"pkg/disksyncmap/disksyncmap.go",CH],[("per-entity files","DiskSyncMap.saveFile/loadFile"),("saved head","Chain.saveHeadToFile, loadHeadFromFile")],None,["queries and ValidatedHead events after restart"])
prop("C15","Stored records read back exactly or not at all",
 "Any block, merkle node or transaction that is stored on disk reads back identical in every field. A damaged or partial record is never interpreted as different content; it counts as absent.",
 ["inputs","crash_points"],"all small entities with boundary field values (empty lists, extreme integers, empty keys and signatures) and every truncation of their stored form",
 "Existing tests round-trip three hand-made records and no damaged one.",
 ["internal/inv/serialize.go","pkg/disksyncmap/disksyncmap.go"],[("text records","*Record.String, *RecordFromString")])
prop("C16","Every subscriber gets every message once and in order",
 "A subscriber to a topic receives every message published after it subscribed and before it closed, exactly once, with messages of one publisher in publishing order and multi-message publishes contiguous. This holds for every interleaving of publishers, subscribers, closers and background cleanup.",
 ["schedules"],"all interleavings up to a deviation bound of 1-2 publishers, 1-2 subscribers, closers and the cleanup tick",
 "The tests run one lucky schedule.",
 ["pkg/topic/topic.go","pkg/syncqueue/syncqueue.go","pkg/queue/queue.go"],[("locked queues per subscriber","Topic.Sub/Pub/gc, SubCh.loop")])
prop("C17","Closing a subscription always finishes and harms nobody",
 "Closing a subscription channel always completes, whatever is queued, being delivered or published at that moment; afterwards its consumer sees end-of-channel and publishers and other subscribers carry on unaffected. No interleaving deadlocks, panics or delivers a message after close has returned.",
 ["schedules"],"all interleavings up to a deviation bound of closing with publishing, delivery, a concurrent reader and cleanup",
 "The tests close once, in one schedule.",
 ["pkg/topic/topic.go","pkg/syncqueue/syncqueue.go"],[("close handshake","SubCh.Close, SubCh.loop, SyncQueue.Close")])
prop("C18","Shared queues and maps are linearizable",
 "Concurrent operations on the shared queue and the shared maps behave as if executed one at a time in an order consistent with real time: no item is lost, duplicated or reordered, a stored key is visible to every later reader with its complete value, and operations on a closed queue have no effect.",
 ["schedules"],"all interleavings up to a preemption bound of 2-3 threads with 1-3 operations on colliding keys or one queue",
 "There are no tests of these structures.",
 ["pkg/syncqueue/syncqueue.go","pkg/queue/queue.go","pkg/syncmap/syncmap.go","pkg/disksyncmap/disksyncmap.go"],[("mutex-protected queue, sync.Map","SyncQueue, SyncMap, DiskSyncMap")])
prop("C19","Wire messages round-trip however the bytes are split",
 "Everything written to a connection is read back identical on the other side for all values and lengths the format allows, however the transport splits the byte stream and whenever read timeouts strike; a message too long to be framed is refused rather than corrupted. After any successful exchange both sides are positioned at the next message.",
 ["inputs","schedules","fault_sequences"],"all message kinds with boundary sizes (0, 1, 65534-65536 bytes), all split points of the stream and timeout placements within bounds",
 "There are no tests of the protocol layer.",
 ["pkg/prot/conn.go","pkg/prot/core.go","pkg/prot/primitives.go"],[("length-prefixed framing","Conn.Read/Write/ReadTimeout"),("typed readers and writers","Conn.ReadTx, WriteTx, ...")])
prop("C20","The handshake yields two agreeing ends or none",
 "For every interleaving, split and failure during connection setup, either both ends finish with each other's correct runtime id, or each end that cannot use the connection reports an error and neither hangs beyond its timeouts. A node never completes a connection to itself, nor to a peer announcing a different protocol or version.",
 ["schedules","inputs","fault_sequences"],"all pairs of handshake scripts (valid, self, wrong magic, wrong version, truncated, silent), all bounded schedules",
 "There are no tests of connection setup.",
 ["pkg/prot/conn.go"],[("handshake","Conn.handshake, NewConn, ResolveConn")])
prop("C21","Connected nodes converge to the best chain",
 "Whenever nodes are connected (directly or through others) and no new candidates arrive, they stay connected and all end up on valid chains with the most work any of them has (the same chain unless several tie) and with the ledgers of those chains, whatever chains they started from, in whatever order heads, transactions and connections arrived, and whoever dialled. This includes simultaneous announcements and blocks whose transactions depend on each other or whose trees have different depths.",
 ["schedules","histories"],"all pairs of small block trees as starting points and all bounded interleavings/timings of connection setup, head announcements and new blocks between 2-3 nodes",
 "No test connects two nodes.",
 ["internal/peer/sync.go","internal/peer/peer.go","internal/peerfactory/peerfactory.go",CH],[("sync-chain exchange","Peer.handleSyncChain, handleInboundSyncChain, handleOutboundSyncChain"),("simultaneous commands","Peer.issueCommand")],None,["head height and balance queries of every node at quiescence"])
prop("C22","Accepted transactions reach every connected node",
 "A transaction accepted by one node becomes known to every node connected to it at that time, directly or through others, each adding it at most once and none rebroadcasting forever, even when several transactions or heads are announced from both ends at the same moment. Nodes on the same head then offer the same transactions for mining.",
 ["schedules","histories"],"all bounded interleavings of simultaneous transaction and head announcements among 2-3 connected nodes",
 "No test connects two nodes.",
 ["internal/peer/handlers.go","internal/peer/peer.go",CH],[("new-tx exchange","Peer.handleWriteNewTx, handleReadNewTx"),("announcement","ValidatedTx topic")])
prop("C23","A hostile peer can only lose its own connection",
 "Whatever bytes a remote peer sends, at any point of the handshake or of any exchange, and whenever it stalls or disconnects, the node keeps running, its chain and other peers keep working, memory it commits is bounded by what was actually received, and once the peer has disconnected its connection is cleaned up. Nothing a peer sends is adopted without full validation.",
 ["inputs","fault_sequences","schedules"],"all single-point deviations (corrupt, replace, truncate, stall, oversize counts, disconnect) from valid peer scripts for every command, plus a second honest peer",
 "There are no tests of peer handling.",
 ["internal/peer/peer.go","internal/peer/handlers.go","internal/peer/sync.go","pkg/prot/core.go","pkg/prot/conn.go"],[("panic containment","Peer.Loop recover"),("sync pre-verification","Peer.quickVerifyChain")])
prop("C24","The peer set stays consistent and bounded",
 "A node never keeps two peer connections to the same peer or any to itself, never exceeds its maximum number of peers, tells refused peers so with alternative addresses, and after a peer leaves it forgets it, can accept it again, and no longer hands out its address. Addresses peers announced for themselves are shared on request, an address announced anew replaces the earlier one, and addresses of unknown peers it is told of are dialled while it has room. A node dials its configured seeds when it starts, and again when it is left without peers.",
 ["schedules","histories"],"all sequences and bounded interleavings of connects (inbound, outbound, duplicate, self), announcements, requests and disconnects for up to 3 peers around the limit",
 "There are no tests of peer management.",
 ["internal/peerfactory/peerfactory.go","internal/peer/peer.go","internal/peer/handlers.go"],[("admission","PeerFactory.addConn"),("bookkeeping","PeerFactory.Loop")],
 [("known peers","connected peer ids and addresses","PeerFactory.knownPeers/knownPeerAddrs")])
prop("C25","Ledger queries over HTTP answer truthfully",
 "Every wallet endpoint (height, balances, unspent outputs with or without pending spends, transactions, merkle nodes, blocks, confirmations, including block, rich list) answers with exactly the node's current chain and pending set for every state and every well-formed query, and client and server agree on the encoding. Malformed queries and bodies get a client error and change nothing; a posted transaction is reported accepted if and only if it passes validation.",
 ["inputs","histories"],"all endpoints crossed with small query lists (known, unknown, duplicate, malformed ids), all list limits including extreme ones, on every state of small histories",
 "There are no tests of the HTTP layer or the queries.",
 ["internal/rest/wallet.go","internal/rest/server.go","internal/rest/busclient.go","internal/rest/models/models.go","internal/rest/client/wallet.go",ST],[("handlers and models","rest.Server, models"),("queries","State.Get*")])
prop("C26","Administration is only for holders of the password",
 "When an administration password is set, an administration request without exactly that password is refused with 401 and has no effect, for every method and header form; when administration or wallet endpoints are disabled they do not exist. With the right password the terminate request takes effect, and unsupported methods get 405 without effect.",
 ["inputs","configurations"],"all combinations of enabled endpoint groups, passwords (empty, set) and request methods, header spellings and values (absent, empty, prefix, suffix, case changes, repeated)",
 "There are no tests of the HTTP layer.",
 ["internal/rest/server.go","internal/rest/admin.go"],[("password check and mounting","Server.mountHandlers, Server.Start")])
prop("C27","Wallet transactions are valid, exact and lose no money",
 "For every set of owned outputs, destinations, fee rate and height, building a payment either returns an error or a transaction the node's validation accepts (given those outputs), paying each destination exactly its amount, returning all change to an owned address, with a fee equal to the target rate rounded as documented; consolidation likewise returns all value minus fee of the most valuable owned outputs that fit one transaction to an owned address. It never crashes, never pays a fee beyond the requested rate, uses no more inputs than the payment needs, and returns an error only when the balance, the transaction size limit or the fee rate make such a payment impossible.",
 ["inputs"],"all small multisets of owned outputs and destinations with amounts around zero, the exact fee boundary and the 64-bit limit, sizes around the transaction size limit, and several fee rates",
 "There are no tests of transaction construction.",
 ["pkg/core/txfactory.go"],[("selection, change and signing","MakeOutboundTx, MakeConsolidateTx")])
prop("C28","A wallet never loses a key",
 "Once a wallet command that adds or imports a key has reported success, the key and all earlier keys are found by every later command, and a crash at any moment of any wallet command leaves a readable wallet with every key saved before it. Importing is idempotent, never removes or alters existing keys, and refuses files whose keys do not match their addresses.",
 ["crash_points","histories","inputs"],"all command sequences up to a small length over generate/import/connect, with a crash at every file-operation prefix and truncation of the write in progress",
 "There are no tests of the wallet program.",
 ["cmd/bcwallet/config.go","cmd/bcwallet/bcwallet.go"],[("config file handling","Config.Save, GetConfig, EnsureConfig, AddKeys")])
prop("C29","Merkle trees contain exactly the given transactions in order",
 "For every non-empty list of distinct transaction ids, the generated tree's nodes come in an order in which each node's children precede it, its root is last, and reading the stored tree back yields exactly the given transactions in the given order with the sum of their sizes. The documented bound on tree size is never exceeded.",
 ["inputs"],"all list lengths from 1 up to a bound well past several powers of two, and all small tree shapes accepted by the inventory",
 "Tests compute trees for a handful of lengths and never store them.",
 ["pkg/core/block.go",INV],[("tree construction","MerkleFromTxIds, MerkleTreeMaxSize"),("flattening","Inv.GetMerkleTxIds, GetMerkleTxs, GetMerkleVSize")])
prop("C30","Block ancestry queries are exact",
 "For every stored block tree, height, total work, ancestor lists, ancestor depth, specific ancestors, ancestors until a block and last common ancestor agree with the parent links, for every pair of blocks and every depth including the origin and depths beyond it.",
 ["inputs"],"all rooted trees up to a bound of blocks and all pairs/depths",
 "There are no tests of the inventory's ancestry functions.",
 [INV],[("ancestry walks","Inv.GetBlockAncestors, GetBlockAncestorDepth, GetBlockAncestorsUntil, GetBlockLCA, GetBlockSpecificAncestor")])
prop("C31","The wallet program does what it reports",
 "Every wallet command line either performs exactly the requested action and reports success or reports an error and changes nothing: a send pays every listed recipient the total amount listed for it and only after confirmation, balances and totals count each address once, and queries print what the node answers. Wrong usage never alters the wallet or sends anything.",
 ["inputs","histories"],"all commands with small argument lists (valid, duplicate, malformed, missing), confirmations (y, n, other) and node states (connected, absent, rejecting)",
 "There are no tests of the wallet program.",
 ["cmd/bcwallet/bcwallet.go","cmd/bcwallet/cli.go"],[("command handlers","commands, Execute")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
