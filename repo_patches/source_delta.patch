From ad04e8a4a96b594bc14e59704a9b63ff96462e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 01/15] fix: encode and decode all eight segments of IPv6 peer
 addresses

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From 6aa9a14ddddd1f035aeac258814ad07e3468b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 02/15] fix: write the features byte of transaction inputs

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From 5c7869b155b6b7d5ec99ec1690d74d3b4abae584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 03/15] fix: check lengths taken from messages before
 allocating

---
 consensus/block.go | 5 +++++
 p2p/handshake.go   | 8 ++++++++
 p2p/messages.go    | 4 ++++
 p2p/protocol.go    | 3 +++
 4 files changed, 20 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..a88e94b 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -420,6 +420,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the lengths.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..f2a23a4 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,6 +123,10 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > maxStringLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
@@ -210,6 +214,10 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > maxStringLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..c55a059 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,6 +207,10 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
+	if messageLen > maxStringLen {
+		return errors.New("too big error message")
+	}
+
 	buff := make([]byte, messageLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/protocol.go b/p2p/protocol.go
index ba25bf0..73a4078 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -14,6 +14,9 @@ import (
 const (
 	// userAgent is name of version of the software
 	userAgent = "gringo v0.0.1"
+
+	// maxStringLen is the maximum length of any text accepted from a peer
+	maxStringLen = 10000
 )
 
 // Message defines methods for WriteMessage/ReadMessage functions
-- 
2.43.0


From 8c2dd51554cc583b925d1fb2e2a9d21265bc9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 04/15] fix: accept only a single simple cycle as a proof of
 work

---
 cuckoo/cuckoo.go | 61 +++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..c867ed4 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -14,56 +14,53 @@ import (
 type Edge struct {
 	U uint64
 	V uint64
-
-	usedU bool
-	usedV bool
 }
 
-// findCycleLength attempts to walk the given edges and returns the length of
-// the cycle.
+// findCycleLength walks the given edges, starting from the first one, and
+// returns the length of the cycle the walk closes. It returns zero if the walk
+// hits a dead end or a vertex that is shared by more than two edges.
 func findCycleLength(edges []*Edge) int {
 	i := 0     // first node
 	cycle := 0 // the current length of the cycle
 
-loop:
-	for {
+	for cycle < len(edges) {
 		// If the current cycle length is even we need to look for an edge from
 		// U -> V.
 		vertexInUPartition := cycle&1 == 0
 
-		if vertexInUPartition {
-			// Find an unused edge that connects to the current vertex.
-			for j := range edges {
-				if j != i && !edges[j].usedU && edges[i].U == edges[j].U {
-					edges[i].usedU = true
-					edges[j].usedU = true
-
-					i = j
-					cycle++
-
-					continue loop
-				}
+		// Find the only other edge that connects to the current vertex.
+		next := -1
+		for j := range edges {
+			if j == i {
+				continue
 			}
-		} else {
-			// Find an unused edge that connects to the current vertex.
-			for j := range edges {
-				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
-					edges[i].usedV = true
-					edges[j].usedV = true
-
-					i = j
-					cycle++
 
-					continue loop
+			if (vertexInUPartition && edges[i].U == edges[j].U) ||
+				(!vertexInUPartition && edges[i].V == edges[j].V) {
+				if next >= 0 {
+					// More than two edges share this vertex.
+					return 0
 				}
+
+				next = j
 			}
 		}
 
-		// If we didn't find a match for this vertex then we're done.
-		break
+		// If we didn't find a match for this vertex then the walk isn't closed.
+		if next < 0 {
+			return 0
+		}
+
+		i = next
+		cycle++
+
+		// Back at the first edge, the cycle is closed.
+		if i == 0 {
+			return cycle
+		}
 	}
 
-	return cycle
+	return 0
 }
 
 // New returns a new instance of a Cuckoo cycle verifier. key is the data used
-- 
2.43.0


From bafab39ad523ac20b80c01e0a94f703c14baea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 05/15] fix: verify the signature of every kernel in a block

---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index a88e94b..cb49f4d 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -279,11 +279,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 5f2211df42399fe20201315b0ddbc19d2ae1f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 06/15] fix: compare whole points in signature checks and sign
 with a decodable nonce point

---
 secp256k1zkp/schnorr.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..595fa82 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -38,7 +38,7 @@ retry:
 	r := &big.Int{}
 	r.SetBytes(buf[:])
 
-	if r.Cmp(btcec.S256().N) == 1 {
+	if r.Cmp(btcec.S256().N) >= 0 {
 		goto retry
 	}
 
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// The signature only carries the x-coordinate of R, the y-coordinate is
+	// always decoded as a quadratic residue.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R = ScalarMulPoint(&G, k)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
@@ -110,7 +117,7 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	return lhs.Equals(rhs)
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From 666bfdf82cf2abda66a97c48c93e9756b438ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 07/15] fix: damp the difficulty by seconds between half and
 twice the window

---
 consensus/consensus.go  |  2 +-
 consensus/difficulty.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..9be3713 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -109,5 +109,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..24c8d8b 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -31,6 +31,9 @@ func (d Difficulty) FromHash(hash Hash) Difficulty {
 
 	// Use the first 64 bits of the given hash
 	num := binary.BigEndian.Uint64(hash[:8])
+	if num == 0 {
+		num = 1
+	}
 
 	return Difficulty(maxTarget / num)
 }
@@ -58,6 +61,11 @@ func NextDifficulty(blist BlockList) Difficulty {
 		return ZeroDifficulty
 	}
 
+	// Older blocks are of no interest.
+	if blen > DifficultyAdjustWindow+MedianTimeWindow {
+		blen = DifficultyAdjustWindow + MedianTimeWindow
+	}
+
 	// Sum of difficulties in the window, used to calculate the average later.
 	sumDiff := ZeroDifficulty
 
@@ -100,7 +108,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)/time.Second) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From 3063a9b6820e9ec8821a66a038bc51a87dc88b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 08/15] fix: validate every block of the chain down to the
 genesis block

---
 chain/chain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..99b83b4 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -370,9 +370,9 @@ func (c *Chain) Validate() error {
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
+	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
 		err := block.Validate()
-		if err == nil {
+		if err != nil {
 			return err
 		}
 
-- 
2.43.0


From 3e6744c19a55f0885612cef244df65a240023bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 09/15] fix: ban peers without crashing and keep banned peers
 out of the table

---
 p2p/pool.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..4286394 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
@@ -69,7 +70,11 @@ func (pp *peersPool) Ban(addr string) {
 
 	// Mark banned & Close connection
 	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
+	if peerInfo.Peer != nil {
+		// Ban is called while handling a message of the peer that Close waits
+		// for, so don't wait for it here.
+		go peerInfo.Peer.Close()
+	}
 
 	// Add to ban list
 	pp.bnmu.Lock()
@@ -108,11 +113,16 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// Don't add banned peers
+	if pp.IsBan(addr) {
+		return
+	}
+
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From 82d574033151bc62154ad452a5c9e25fb949a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 10/15] fix: ban the sender of bad data by its table address
 and never relay bad blocks

---
 p2p/sync.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..6d02b2c 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,8 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
+			return
 		}
 
 		// update peer info
@@ -211,9 +212,14 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		// there may be no transaction pool
+		if s.Mempool == nil {
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From a137aa79d63c3040f150aaf39e099f7ef66d0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 11/15] fix: announce and check the genesis block in handshakes

---
 p2p/handshake.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index f2a23a4..e2981f4 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -268,6 +268,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Check that the peer is on the same chain
+	if !bytes.Equal(sh.Genesis, chain.Testnet4.Hash()) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	return sh, nil
 }
 
@@ -286,12 +291,18 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
+	// Check that the peer is on the same chain
+	if !bytes.Equal(h.Genesis, chain.Testnet4.Hash()) {
+		return &h, errors.New("peer is on another chain")
+	}
+
 	// Send shake
 	msg := shake{
 		Version:         consensus.ProtocolVersion,
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         chain.Testnet4.Hash(),
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From ce7f1956b8811db96339c5063d461e4ba491536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 12/15] fix: require a full length cycle in the proof of work
 of a header

---
 consensus/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 2f76a9d..ad82cb5 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -32,6 +32,10 @@ var (
 func (p *Proof) Validate(header *BlockHeader, cuckooSize uint8) error {
 	logrus.Infof("block POW validate for size %d", cuckooSize)
 
+	if len(header.POW.Nonces) != ProofSize {
+		return errInvalidPow
+	}
+
 	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
 	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
 		return nil
-- 
2.43.0


From 00e1ffe9f7d5c2e2e0937e17fd5fa21abdf8b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 13/15] fix: refuse header timestamps too far in the future to
 subtract

---
 consensus/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index cb49f4d..00e4661 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -1007,7 +1007,7 @@ func (b *BlockHeader) Validate() error {
 	}
 
 	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
-	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
+	if b.Timestamp.Unix() > time.Now().Unix()+int64(12*BlockTimeSec) {
 		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
 	}
 
-- 
2.43.0


From ab4d0c04fdbf710117b4738460c101d63ee1975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 14/15] fix: refuse range proofs shorter than their declared
 length

---
 consensus/block.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 00e4661..102616a 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -605,8 +605,9 @@ func (o *Output) Read(r io.Reader) error {
 	}
 
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
-	if err != nil {
+	limited := &io.LimitedReader{R: r, N: int64(proofLen)}
+	err := proof.Read(limited)
+	if err != nil || limited.N != 0 {
 		return errors.New("failed to deserialize range proof")
 	}
 	o.RangeProof = *proof
-- 
2.43.0


From 9de4d53ebfe85651f02597dc719ca14869707a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:02 +0000
Subject: [PATCH 15/15] fix: judge the difficulty of a block by the blocks
 before it, latest first

---
 chain/chain.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 99b83b4..65f82fa 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -335,18 +335,26 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	}
 	// - check that the difficulty is not less than that calculated by the
 	//    	difficulty average based on the previous blocks
-	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
-	fromHeight := uint64(0)
-	if block.Header.Height > uint64(limit) {
-		fromHeight = block.Header.Height - uint64(limit)
+	limit := uint64(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
+	if block.Header.Height < limit {
+		limit = block.Header.Height
 	}
 
+	fromHeight := block.Header.Height - limit
 	blockID := consensus.BlockID{
 		Hash:   nil,
 		Height: &fromHeight,
 	}
 
-	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
+	// the storage returns the oldest block first, the difficulty is calculated
+	// from the latest one
+	window := c.storage.From(blockID, int(limit))
+	latest := make(consensus.BlockList, 0, len(window))
+	for i := len(window) - 1; i >= 0; i-- {
+		latest = append(latest, window[i])
+	}
+
+	diffAvg := consensus.NextDifficulty(latest)
 	if block.Header.Difficulty < diffAvg {
 		return errors.New("difficulty is too low")
 	}
-- 
2.43.0

