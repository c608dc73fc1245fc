NA={}
c("C01",T_SEQ,"Every sequence of up to 3 (thorough 4) operations over universes of transfers with amounts around the 64-bit range, over- and underpaying coinbases and a near-full supply; after each, the sum of all unspent outputs is compared with reward x height.")
c("C02",T_SEQ,"Every sequence of up to 4 (thorough 5) operations over a universe of double spends, re-inclusions, sibling-branch spends and mis-ordered spends, incl. preambles with reorganisations, mined templates and restarts on a recorded head.")
c("C04",T_SEQ,"Every sequence of up to 4 (thorough 6) candidate heads over universes with branches of different work, ties, invalid blocks on heavier branches and partially supplied chains.")
c("C05",T_SEQ,"Every sequence of up to 5 (thorough 6) operations over forked universes with chained and conflicting transfers; after each sequence all ledger queries are compared with a replay of the current chain from scratch.")
c("C09",T_SEQ,"Every sequence of up to 4 (thorough 6) operations over branches of different height carrying locked transactions, incl. reorganisations to lower heights and restarts.")
c("C10",T_SEQ,"Every subset of ten competing pending transactions in two orders for several block size limits, and every operation sequence to depth 4 (6) with reorganisations; every template published is judged against exact rational fee rates and is mined and offered back.")
c("C14",T_CRASH,"The real chain and inventory code of a node on a simulated disk: every history of up to 2 (thorough 3) candidates and transactions, the last one stopped before every file operation and inside every write, the node restarted on what is left, judged against an independent ledger, then offered everything else; also stops during a second operation and during the start itself.")
c("C15",T_ENUM,"Every entity of a universe with boundary values stored by the real inventory; every enumerated damage to every file (each byte changed, dropped, inserted or exchanged, each truncation at either end, lines dropped or exchanged, foreign records) read by a fresh process: identical or absent, and storable again; plus every combination of boundary field values through the record format.")
c("C16",T_SCHED,"All schedules up to the stated deviation bound of publishers, subscribers, closers and cleanup on the real topic; message sets compared at every subscriber.")
c("C17",T_SCHED,"All schedules up to the stated deviation bound of closes racing with publication, delivery, consumption and other closers.")
c("C18",T_SCHED,"All schedules up to the stated deviation bound of concurrent operations on the real queue and maps (in memory and on the simulated disk), judged by a linearizability search.")
c("C03",T_ENUM,"Every single-field, single-bit and splice alteration of the inputs, outputs, minimum height, keys and signatures of valid transactions, offered in every short history (before, after and across a reorganisation) to the real validation; accepted exactly when every input carries a valid signature of the owner over the exact transaction.")
c("C06",T_SEQ,"Every candidate out of a catalogue of malformed, incomplete, mis-ordered, conflicting and invalid heads, blocks, trees and transactions, in every order up to the stated depth together with valid ones; after each the node must be unchanged, alive and still accept the valid continuation.")
c("C07",T_ENUM,"Every catalogued deviation, alone and combined, of blocks and transactions around each acceptance limit (values, sizes, counts, order, target, parent, tree shapes), offered to the real node and compared with an independent acceptance rule.")
c("C08",T_SEQ,"Every assignment of block times out of a grid around the limits (median, clock, period ends, clamps) along chains over one and more target periods; acceptance and next target compared with independent big-integer arithmetic.")
c("C11",T_SCHED,"The real chain and one or two real miners running together in virtual time: every history of heads, transactions, pauses and clock jumps up to depth 3 (thorough 4), restarts, retargeting and clocks behind the chain, plus all schedules up to the stated bound around a change of head; every published block is judged against the targets given and an independent validity oracle, and the head must go on being extended.")
c("C13",T_SCHED,"The real inventory, in memory and on the simulated disk: every store history up to the stated depth after several prefixes with restarts, and one writer with one or two readers under every schedule up to the stated bound, with closure, content, derived values and data races checked at every look.")
c("C12",T_ENUM,"All pairs of some 6000 systematic variants of transactions, merkle nodes and blocks (every field at its boundary values, list splices, swaps): equal ids only for equal contents; copies and encodings keep the id.")
c("C29",T_ENUM,"Trees over every number of transactions up to the stated bound and all orders of small sets: node order, root, read-back order and size, in memory and on the simulated disk.")
c("C30",T_ENUM,"All rooted block trees up to the stated size and long chains with forks: every ancestry query for every pair and depth compared with the parent links, in memory and on the simulated disk.")
c("C19",T_NET,"Every message type at its boundary values written and read back over the simulated transport with every split of the byte stream and every read timeout at every byte, plus sequences of messages and refused over-long ones.")
c("C20",T_NET,"Both ends of connection setup on a simulated network: all interleavings, splits, stalls and cuts at every byte, wrong protocols, versions, self-connections and garbage, up to a deviation bound; both ends agree or each errors within its timeouts.")
c("C21",T_NET,"Two and three whole nodes on a simulated network: every combination of starting chains and dialling patterns, stored-but-unadopted chains, heads arriving on a grid of moments, and all schedules of the nodes' loops with one (thorough two) deviations; afterwards all nodes must be on a most-work chain with the ledger a replay gives.")
c("C22",T_NET,"Chains, stars and pairs of whole nodes on a simulated network: every placement of simultaneous transactions and heads at both ends on a grid of moments and all schedules of the nodes' loops with one (thorough two) deviations, also among nodes that kept any of the transactions on disk from an earlier run; afterwards every node must know every accepted transaction exactly once, offer the same for mining and be silent.")
c("C23",T_NET,"An independent raw peer running every command's valid script, with every single deviation (corrupt, replace, truncate, stall, oversize counts, disconnect) at every message it sends, next to an honest peer; the node must stay alive, keep its chain, keep serving the honest peer, not allocate beyond what it received and clean the connection up.")
c("C24",T_NET,"Every sequence of connects, duplicates, announcements, requests, tellings and leaves of up to five raw peers around the limit to depth 4 (6), from an empty and a full set; simultaneous ones under all schedules with one (two) deviations; judged by the connections, refusals and addresses observable from outside; seeds dialled at the start and again when alone.")
c("C25",T_SEQ,"Every sequence of up to 4 (thorough 6) ledger operations, incl. reorganisations and restarts, with every REST query for every known and unknown id after each; every catalogued malformed request in every ledger state; posted transactions; queries racing with adoption under all schedules up to a deviation bound with a happens-before race detector.")
c("C26",T_ENUM,"The real bcnode program with its admin server on the simulated network: every admin route with every catalogued credential (none, wrong, prefix, empty, repeated headers, other schemes), configuration and method, and simultaneous requests under all schedules up to a deviation bound; passwords short, long and with special characters.")
c("C27",T_ENUM,"Every small multiset of owned outputs with amounts around zero, the fee boundaries and the 64-bit limit, every combination of destinations, fee rates and key orders, up to the size limit: payments and consolidations built by the real factory are judged by an independent validator and an exhaustive reference for what was possible.")
c("C28",T_CRASH,"The real bcwallet program run in a simulated machine: every sequence of up to 4 (thorough 5) commands adding keys (and of every catalogued command incl. damaged, mismatched and missing files to depth 2, thorough 3); for the last one a stop at every file operation with torn writes and a full disk at every operation; afterwards the keys shown and those that sign are compared with those saved.")
c("C31",T_SEQ,"The real bcwallet program against a real node over simulated HTTP: every catalogued command line (valid, duplicate, malformed, missing arguments) with every confirmation in every prepared state of wallet and node, with requests failing at each position, and every sequence of up to 4 (thorough 5) payments, consolidations and blocks; output, transactions sent and files compared with an independent ledger.")
