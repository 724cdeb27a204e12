#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))

p("C01","Message framing on the wire is exact",
 "Every message the node writes is framed as the two magic bytes 0x54 0x34, one type byte, the body length as an 8-byte big-endian integer, and then exactly that many body bytes, and the reported byte count is the frame's size. Reading a message succeeds only if the frame has the right magic, the type the caller expects, and a declared length of at most 20,000,000 bytes, and never consumes bytes beyond the frame. A truncated or mismatching frame is reported as an error.",
 ["inputs"],"every message body and type, every byte stream offered to the reader",
 "One handshake frame is parsed by the tests; no frame is written, and no wrong magic, type, over-long or truncated frame is tried.",
 ["p2p/protocol.go","p2p/messages.go","consensus/network.go"],
 [("WriteMessage/ReadMessage","p2p/protocol.go"),("Header.Bytes/Write/Read","p2p/messages.go")],observe=["WriteMessage output","ReadMessage result"])
p("C02","Control messages keep their documented layout and survive the wire",
 "Ping, pong, peer-list requests, error reports, block requests and both halves of the handshake are encoded field by field in the protocol's order as fixed-width big-endian integers and length-prefixed text, with nothing added or dropped. Decoding the encoding of any such message whose text is at most 10,000 bytes long yields a message with exactly the same field values and consumes exactly the bytes of the encoding.",
 ["inputs"],"every field value of every control message",
 "A single captured handshake reply is decoded; no control message is ever encoded by a test, and the field values are those of one sample.",
 ["p2p/messages.go","p2p/handshake.go"],
 [("Ping/Pong/GetPeerAddrs/PeerError/GetBlock Bytes+Read","p2p/messages.go"),("hand/shake Bytes+Read","p2p/handshake.go")],observe=["Bytes()","Read()"])
p("C03","Peer addresses of both families survive the wire",
 "A network address is encoded as a family byte (0 for IPv4, 1 for IPv6), the 4 address bytes or the eight 16-bit address segments in big-endian order, and the port as a 16-bit big-endian integer. A peer list is a 32-bit count followed by that many addresses; decoding the encoding of any list of at most 256 addresses yields the same addresses and ports in the same order.",
 ["inputs"],"every IPv4 and IPv6 address, every port, every list of at most 256 addresses",
 "No test encodes or decodes a peer address.",
 ["p2p/helpers.go","p2p/messages.go"],
 [("serializeTCPAddr/deserializeTCPAddr","p2p/helpers.go"),("PeerAddrs.Bytes/Read","p2p/messages.go")],observe=["PeerAddrs bytes","decoded list"])
p("C04","Block headers, proofs of work and locators survive the wire",
 "A block header is encoded in the protocol's field order with fixed widths, followed by the graph size byte and the 42 cycle nonces packed least-significant bit first at graph-size bits each; header lists carry a 16-bit count and locators an 8-bit count. Decoding the encoding of any well-formed header, proof, header notification, list of at most 512 headers or locator of at most 14 hashes returns the same field values and consumes exactly the bytes of the encoding.",
 ["inputs"],"every well-formed header, every graph size from 1 to 64 bits, every 42 nonces that fit it, every list within the limits",
 "Tests round-trip one testnet block and one genesis header, both with 29-bit graphs; other sizes, extreme values and lists are never encoded.",
 ["consensus/block.go","consensus/proof.go","consensus/locator.go","p2p/messages.go"],
 [("BlockHeader.Bytes/Read","consensus/block.go"),("Proof.Bytes/Read bit packing","consensus/proof.go"),("Locator","consensus/locator.go"),("BlockHeader(s), GetBlockHeaders","p2p/messages.go")],observe=["Bytes()","Read()"])
p("C05","Transactions, blocks and compact blocks survive the wire in sorted order",
 "Inputs, outputs, kernels, transactions, blocks and compact blocks are encoded with the protocol's counts, widths and field order, and each list of inputs, outputs, kernels and short ids is emitted as a sorted permutation of the list held in memory. Decoding the encoding of any such well-formed value returns the same header, offset, features, commitments, range proofs, fees, lock heights, excesses, signatures and short ids, in the order written, and consumes exactly the bytes of the encoding.",
 ["inputs"],"every well-formed value with any list lengths within the limits, any list order in memory",
 "Tests decode one transaction and round-trip one block whose lists are already sorted; no transaction or compact block is encoded.",
 ["consensus/block.go","consensus/transaction.go","consensus/id.go"],
 [("Input/Output/TxKernel/Block/CompactBlock Bytes+Read","consensus/block.go"),("Transaction.Bytes/Read","consensus/transaction.go")],observe=["Bytes()","Read()"])
p("C06","No byte string a peer sends can crash a decoder",
 "Decoding any byte string as any message, header, block, compact block, transaction, kernel, input, output, proof of work, locator or handshake terminates with either a value or an error: it never panics, never exits the process and never makes an allocation sized by an unchecked number taken from the message. Input that ends before the value is complete is always reported as an error.",
 ["inputs"],"every finite byte string, every message kind",
 "Tests decode three well-formed samples; no malformed, truncated or hostile input is tried.",
 ["p2p/messages.go","p2p/handshake.go","p2p/helpers.go","p2p/protocol.go","consensus/block.go","consensus/transaction.go","consensus/proof.go","consensus/locator.go"],
 [("all Read methods","p2p/*.go, consensus/*.go")],observe=["Read() panics/returns"])
p("C07","Decoders refuse anything outside the protocol's limits",
 "A decoder accepts a message only if it respects the protocol's limits: at most 14 locator hashes, 512 headers, 256 peer addresses, 1,000,000 inputs, outputs, kernels or short ids, 5,134 bytes of range proof and 10,000 bytes of text, a graph size between 1 and 64 bits, an address family of 0 or 1, and the node's own protocol version in a handshake. A transaction whose inputs, outputs or kernels are out of order is refused. Every value on the permitted side of each limit is accepted.",
 ["inputs"],"every declared count, size and version on both sides of each limit",
 "No test offers a value at or beyond any limit.",
 ["p2p/messages.go","p2p/handshake.go","p2p/helpers.go","consensus/block.go","consensus/transaction.go","consensus/proof.go","consensus/locator.go","consensus/network.go"],
 [("length and version checks in Read methods","p2p/*.go, consensus/*.go")],observe=["Read() error"])
p("C08","Proof-of-work verification accepts exactly single cycles",
 "A proof of work is accepted only if its nonces are strictly ascending, each lies within the allowed range for the graph, and the edges they generate form one simple cycle that passes through every one of them; two joined cycles, a cycle with a tail, a path or repeated vertices are refused. Every proof that meets these conditions is accepted, and a block header's proof must contain exactly 42 nonces.",
 ["inputs"],"every set of nonces of any length and order, every key, every edge placement",
 "Tests try two valid proofs and two tiny non-cycles; degenerate shapes such as a short cycle with a tail are never tried.",
 ["cuckoo/cuckoo.go","consensus/proof.go"],
 [("findCycleLength","cuckoo/cuckoo.go"),("Cuckaroo.Verify, Cuckoo.Verify","cuckoo/cuckoo.go"),("Proof.Validate","consensus/proof.go")],observe=["Verify result"])
p("C09","Graph edges are the specified keyed hash for every key and nonce",
 "For every key and every nonce, the keyed hash that places cuckoo edges is SipHash-2-4 over one 64-bit word, and the block variant chains the 64 nonces of the aligned block that contains the nonce and combines the state at the nonce with the final state. Edge endpoints are the low bits and the upper half of that hash under the graph's mask (cuckaroo), or the masked hash of twice the nonce plus the side, doubled with the side in the lowest bit (cuckoo), and keys are the four little-endian words of the header's hash.",
 ["inputs"],"every 256-bit key, every 32-bit nonce, every graph size",
 "Tests compare seven sample points.",
 ["cuckoo/siphash24.go","cuckoo/cuckoo.go"],
 [("SipHash24.Write64/Sum64, siphash24, siphashBlock","cuckoo/siphash24.go"),("NewEdge, newNode, New, NewCuckaroo","cuckoo/cuckoo.go")],observe=["NewEdge"])
p("C10","Header validation enforces every header rule",
 "A block header is accepted exactly when its version is the one scheduled for its height, its timestamp is no more than 12 block intervals in the future, its graph size is the secondary size or at least the primary minimum, its scaling factor is 1 unless it uses the secondary size, and its proof of work verifies over the header's own contents. Any header that breaks one of these rules is refused with an error.",
 ["inputs","configurations"],"every header field combination, every height and version, every timestamp that can be encoded",
 "One valid header is validated; no rule is ever violated by a test.",
 ["consensus/block.go","consensus/proof.go","consensus/consensus.go"],
 [("BlockHeader.Validate, ValidateBlockVersion","consensus/block.go"),("Proof.Validate","consensus/proof.go")],observe=["Validate error"])
p("C11","Block validation accepts only blocks that meet every block rule",
 "A block is accepted only if its header is valid, it has at least one output and one kernel, its inputs, outputs and kernels are each in sorted order, it has at most one coinbase output and at most one coinbase kernel, every output's range proof verifies against its commitment, and every kernel's signature verifies. A block that satisfies all of these is accepted.",
 ["inputs"],"every block, every list length, the failing element at any position",
 "One valid block is validated; no invalid block is ever offered.",
 ["consensus/block.go"],
 [("Block.Validate, verifyCoinbase, verifyKernels, verifySorted, verifyRangeProofs","consensus/block.go")],observe=["Validate error"])
p("C12","Kernel signatures bind key, fee and lock height, and verify exactly",
 "A kernel's signature is accepted exactly when the signature equation s*G = R + e*P holds as an equality of curve points, where e hashes the nonce point, the compressed excess and the message made of the fee and the lock height. A signature produced for a key verifies under that key, also after being serialised to 64 bytes and decoded again, and random scalars lie below the group order.",
 ["inputs"],"every key, message, nonce, fee and lock height",
 "Tests verify one kernel and one freshly made signature held in memory; forged, negated and serialised signatures are never tried.",
 ["secp256k1zkp/schnorr.go","consensus/block.go"],
 [("SignMessage, VerifySignature, ComputeMessage, DecodeSignature, Signature.Bytes","secp256k1zkp/schnorr.go"),("TxKernel.Validate","consensus/block.go")],observe=["VerifySignature","TxKernel.Validate"])
p("C13","Hashes commit to exactly the data they identify",
 "The hash of an input, an output or a kernel is the BLAKE2b-256 of its features and commitment, its features and commitment without the range proof, or its whole encoding; a block's hash is the BLAKE2b-256 of its packed cycle nonces; and the proof of work is verified over the encoding of every transmitted header field before it. Lists are ordered by ascending hash (short ids by their bytes), and a short id is the low 6 bytes, little-endian, of SipHash-2-4 of the hash keyed by the first 16 bytes of the block hash.",
 ["inputs"],"every input, output, kernel, header, hash and pair of list elements",
 "Tests check three short ids and one genesis hash; no ordering is tested, and no field is varied to see the hash change.",
 ["consensus/block.go","consensus/id.go","consensus/proof.go"],
 [("Hash methods","consensus/block.go"),("Less/Swap/Len","consensus/block.go, consensus/id.go"),("Hash.ShortID","consensus/id.go"),("bytesWithoutPOW","consensus/block.go")],observe=["Hash()","Less()","ShortID()"])
p("C14","Difficulty follows the retargeting formula within its bounds",
 "The next difficulty is the average difficulty of the latest 60 blocks times the target window time divided by the damped time between the medians of the latest 11 blocks and of the 11 blocks before the window, that time being clamped to between half and twice the target window; it is never below the minimum for a non-empty history, is the minimum when there are fewer than 71 blocks, and ignores older blocks. The difficulty of a proof is the maximum target divided by the first 64 bits of its hash, for every hash.",
 ["inputs","histories"],"every block history of any length with any timestamps and difficulties whose sum does not overflow, every hash",
 "No test computes a difficulty.",
 ["consensus/difficulty.go","consensus/consensus.go","consensus/proof.go"],
 [("NextDifficulty, FromHash","consensus/difficulty.go"),("ToDifficulty","consensus/proof.go")],observe=["NextDifficulty","ToDifficulty"])
p("C15","The chain accepts only valid, correctly linked blocks",
 "A block other than the current tip is accepted without error only if it passes block validation and, when its parent is known, its timestamp is later than the parent's, its total difficulty is the parent's plus the difficulty of the parent's proof, and its difficulty is not below the one required by the preceding blocks. A batch of headers is accepted only if every header is valid, and validating the chain succeeds only if every block from the tip back to the genesis block is present and valid. Rejection changes nothing, and the chain's lock is released however processing ends.",
 ["inputs","histories"],"every block, parent, header batch and stored chain",
 "No test processes a block, a header batch or a stored chain.",
 ["chain/chain.go"],
 [("Chain.ProcessBlock, ProcessHeaders, Validate","chain/chain.go")],
 state=[("head, height, totalDifficulty","current tip","chain.Chain")],observe=["ProcessBlock error","Height","TotalDifficulty"])
p("C16","Header requests are answered from the right place and within limits",
 "The answer to a header request contains at most 512 headers: those that follow the first locator hash the chain knows, in chain order and excluding that block itself. The answer is empty when the first known hash is the tip or when no hash is known, and at most 14 locator hashes are considered. A new chain starts at the stored tip when there is one and at the genesis block otherwise, and reports that block's height and total difficulty.",
 ["inputs","histories"],"every locator of any length, every stored chain",
 "No test requests headers or creates a chain over stored blocks.",
 ["chain/chain.go"],
 [("Chain.GetBlockHeaders, New, GetBlock, Height, TotalDifficulty","chain/chain.go")],observe=["GetBlockHeaders"])
p("C17","The peer table stays bounded, clean and free of banned peers",
 "Only resolvable, non-multicast addresses with a non-zero port are added to the peer table, never twice, never beyond its maximum size, and never while banned; adding an address leaves every other entry as it was. Banning a known peer removes it from the table, records it as banned and closes its connection if it has one, and a banned address stays banned. A peer list given out contains at most 256 addresses, each of a table entry that is neither banned nor failed and that offers every requested capability.",
 ["inputs","histories"],"every address, every table content, every sequence of adds and bans",
 "No test touches the peer table.",
 ["p2p/pool.go"],
 [("peersPool.Add, Ban, IsBan, Peers, PeerInfo, notConnected","p2p/pool.go")],
 state=[("PeersTable, BannedPeers, ConnectedPeers","known, banned and connected peers","p2p.peersPool")],observe=["Peers()","IsBan()"])
p("C18","Peer messages are handled as prescribed and bad data is never relayed",
 "A ping updates what the node knows about that peer and is answered by one pong with the chain's own total difficulty and height; a pong only updates what is known; header, block and peer-list requests are answered with what the chain and the peer table hold; and every address in a received list is offered to the peer table. A block, header list or transaction that fails processing gets its sender banned and, for a block, is neither relayed nor credited to the sender, while a processed block is relayed exactly when its height is the chain's height. Transactions are ignored when the node has no transaction pool.",
 ["inputs","histories"],"every message of every kind, every outcome of processing it, every peer state",
 "No test handles a peer message.",
 ["p2p/sync.go"],
 [("Syncer.ProcessMessage","p2p/sync.go")],observe=["messages sent","bans","relays"])
p("C19","Handshakes refuse ourselves, other chains and other protocol versions",
 "A handshake succeeds only when the other side announces this node's protocol version and genesis block, and an incoming handshake that carries one of this node's own nonces is refused before any reply is sent. Each side announces its version, capabilities and genesis block in a message the other side can decode, and every nonce this node sends is one it recognises as its own.",
 ["inputs","histories"],"every message the other side can send, every sequence of nonces drawn",
 "One captured reply is decoded; no handshake is run.",
 ["p2p/handshake.go","p2p/server.go"],
 [("shakeByHand, handByShake","p2p/handshake.go"),("nonceList","p2p/server.go")],observe=["handshake result","bytes sent"])
p("C20","No data races, deadlocks or lost shutdowns between peer goroutines",
 "Under every interleaving of connection, reading, writing, relaying and shutdown, shared peer and chain state is accessed without data races, no goroutine blocks forever, and closing a peer or stopping the node terminates all of its goroutines.",
 ["schedules"],"every interleaving of the node's goroutines",
 "No test starts a goroutine.",
 ["p2p/peer.go","p2p/pool.go","p2p/sync.go","chain/chain.go"],
 [("channels, wait group, mutexes, atomics","p2p/peer.go, p2p/pool.go")])
p("C21","Stored blocks can be found again",
 "A block added to storage is returned by later lookups by hash or height until it or an ancestor is deleted, the stored tip is the last block added, and this survives a restart or a crash at any point.",
 ["histories","crash_points"],"every sequence of additions, deletions, restarts and crashes",
 "No test uses the storage backend.",
 ["storage/mysql.go","chain/storage.go"],[("SqlStorage","storage/mysql.go")])
p("C22","No accepted block creates or destroys value",
 "For every accepted block the sum of output commitments minus the sum of input commitments minus the permitted reward equals the sum of kernel excesses plus the kernel offset.",
 ["inputs","histories"],"every block and chain",
 "No test checks commitment sums.",
 ["consensus/block.go"],[("verifyKernels (left as TODO in the code)","consensus/block.go")])
p("C23","The node always regains connections up to its configured maximum",
 "As long as reachable peers are known and fewer than the maximum number are connected, the node eventually connects to another one, and every connection slot that is taken is returned when its connection ends.",
 ["schedules","fault_sequences"],"every sequence of connection attempts, failures and disconnects",
 "No test runs the connection loop.",
 ["p2p/pool.go"],[("peersPool.Run, connectPeer","p2p/pool.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
