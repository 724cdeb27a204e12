package chain

import (
	"bytes"

	"github.com/dblokhin/gringo/consensus"
)

// vStore: storage, by its interface: a chain of blocks, the block of height k
// in place k.
type vStore struct {
	list    consensus.BlockList
	changed bool
}

func (s *vStore) AddBlock(block *consensus.Block)  { s.changed = true }
func (s *vStore) DelBlock(id consensus.BlockID)    { s.changed = true }
func (s *vStore) GetLastBlock() *consensus.Block {
	if len(s.list) == 0 {
		return nil
	}
	return &s.list[len(s.list)-1]
}

func (s *vStore) GetBlock(id consensus.BlockID) *consensus.Block {
	if k := s.find(id); k >= 0 {
		return &s.list[k]
	}
	return nil
}

func (s *vStore) From(id consensus.BlockID, limit int) consensus.BlockList {
	k := s.find(id)
	if k < 0 || limit <= 0 {
		return nil
	}
	n := len(s.list) - k
	if n > limit {
		n = limit
	}
	return s.list[k : k+n]
}

// find: the place of a block, or -1.
func (s *vStore) find(id consensus.BlockID) int {
	if id.Height != nil {
		if *id.Height < uint64(len(s.list)) && (id.Hash == nil || s.is(int(*id.Height), id.Hash)) {
			return int(*id.Height)
		}
		return -1
	}
	if id.Hash == nil {
		return -1
	}
	k := vPlace(s.list, id.Hash)
	if k >= uint64(len(s.list)) {
		return -1
	}
	vRequire(s.is(int(k), id.Hash))
	return int(k)
}

func (s *vStore) is(k int, hash []byte) bool {
	h := consensus.BlockHash(&s.list[k].Header.POW)
	return bytes.Equal(h[:], hash)
}

// vPlace: the place of the block with a hash in a chain, or its length.
//@ abstract
func vPlace(l consensus.BlockList, hash []byte) uint64 {
	for k := range l {
		h := consensus.BlockHash(&l[k].Header.POW)
		if bytes.Equal(h[:], hash) {
			return uint64(k)
		}
	}
	return uint64(len(l))
}

func sameHash(a, b *consensus.Block) bool {
	return consensus.BlockHash(&a.Header.POW) == consensus.BlockHash(&b.Header.POW)
}

func fits(l consensus.BlockList) bool {
	return vForall(len(l), func(k int) bool { return consensus.HeaderFits(&l[k].Header) })
}

// vCase: a block that arrives, the stored chain and the tip.
type vCase struct {
	block, head consensus.Block
	l           consensus.BlockList
}

//@ prop C15
//@ contract (*chain.Chain).ProcessBlock
//@ using (*consensus.Block).Validate (*consensus.Block).Hash consensus.NextDifficulty (*consensus.Proof).ToDifficulty
func vc_ProcessBlock(in vCase, genesis consensus.Block, height, total uint64) {
	block, l, head := in.block, in.l, in.head
	vRequire(consensus.BlockFits(&block) && consensus.HeaderFits(&head.Header) && fits(l) && consensus.PlainTimes(l) && len(l) < 1<<40)
	s := &vStore{list: l}
	c := &Chain{storage: s, head: &head, genesis: &genesis, height: height, totalDifficulty: consensus.Difficulty(total)}
	err := c.ProcessBlock(&block)
	vEnsure("lock released", !vLocked(&c.RWMutex))
	vEnsure("nothing changed", c.head == &head && c.genesis == &genesis && c.height == height && uint64(c.totalDifficulty) == total && !s.changed)
	if sameHash(&head, &block) {
		vEnsure("the tip is known", err == nil)
		return
	}
	b := &block.Header
	k := b.Height - 1
	known := b.Height > 0 && k < uint64(len(l)) && s.is(int(k), b.Previous)
	if err == nil {
		vEnsure("accepted only if valid", consensus.BlockRules(&block))
	}
	if !known {
		return
	}
	p := &l[k].Header
	w := k + 1
	if w > 71 {
		w = 71
	}
	latest := consensus.BlockList{}
	for i := 0; i < int(w); i++ {
		latest = append(latest, l[int(k)-i])
	}
	later := b.Timestamp.After(p.Timestamp)
	sum := uint64(b.TotalDifficulty) == uint64(p.TotalDifficulty)+consensus.ProofDifficulty(&p.POW)
	enough := uint64(b.Difficulty) >= consensus.Required(latest)
	if err == nil {
		vEnsure("accepted only later than its parent", later)
		vEnsure("accepted only with the sum of the difficulties", sum)
		vEnsure("accepted only with the difficulty required by the blocks before it", enough)
	}
}

//@ prop C15
//@ contract (*chain.Chain).ProcessHeaders
func vc_ProcessHeaders(hs []consensus.BlockHeader, height, total uint64) {
	vRequire(vForall(len(hs), func(k int) bool { return consensus.HeaderFits(&hs[k]) }))
	c := &Chain{height: height, totalDifficulty: consensus.Difficulty(total)}
	err := c.ProcessHeaders(hs)
	vEnsure("nothing changed", c.height == height && uint64(c.totalDifficulty) == total && !vLocked(&c.RWMutex))
	if err == nil {
		vEnsure("every header valid", vForall(len(hs), func(k int) bool { return consensus.HeaderRules(&hs[k]) }))
	}
}

// vRequest: a request, the stored chain and the tip.
type vRequest struct {
	hashes []consensus.Hash
	l      consensus.BlockList
	head   consensus.Block
}

//@ prop C16
//@ contract (*chain.Chain).GetBlockHeaders
//@ using (*consensus.Block).Hash
//@ split n 0 15
func vc_GetBlockHeaders(n uint8, in vRequest) {
	hashes, l, head := in.hashes, in.l, in.head
	vRequire(len(hashes) > 14)
	if n <= 14 {
		hashes = hashes[:n]
	}
	loc := consensus.Locator{Hashes: hashes}
	vRequire(consensus.HeaderFits(&head.Header) && fits(l) && len(l) < 1<<40)
	s := &vStore{list: l}
	c := &Chain{storage: s, head: &head}
	hs := c.GetBlockHeaders(loc)
	vEnsure("lock released", !vLocked(&c.RWMutex))
	vEnsure("nothing changed", c.head == &head && !s.changed)
	vEnsure("at most 512 headers", len(hs) <= 512)
	if n > 14 {
		n = 14
	}
	tip := consensus.BlockHash(&head.Header.POW)
	for i := 0; i < int(n); i++ {
		if bytes.Equal(hashes[i], tip[:]) {
			vEnsure("nothing after the tip", len(hs) == 0)
			return
		}
		if k := s.find(consensus.BlockID{Hash: hashes[i]}); k >= 0 {
			m := len(l) - k - 1
			if m > 512 {
				m = 512
			}
			vEnsure("as many as follow", len(hs) == m)
			vEnsure("those that follow, in order", vForall(m, func(j int) bool { return vSame(hs[j], l[k+1+j].Header) }))
			return
		}
	}
	vEnsure("nothing when no hash is known", len(hs) == 0)
}

//@ prop C16
//@ contract chain.New (*chain.Chain).Height (*chain.Chain).TotalDifficulty (*chain.Chain).Head (*chain.Chain).Genesis
func vc_New(genesis consensus.Block, l consensus.BlockList) {
	c := New(&genesis, &vStore{list: l})
	tip := &genesis
	if len(l) > 0 {
		tip = &l[len(l)-1]
	}
	vEnsure("height of the tip", c.Height() == tip.Header.Height)
	vEnsure("total difficulty of the tip", c.TotalDifficulty() == tip.Header.TotalDifficulty)
	vEnsure("the tip", vSame(c.Head(), *tip))
	vEnsure("the genesis block", vSame(c.Genesis(), genesis))
	vEnsure("not locked", !vLocked(&c.RWMutex))
}

//@ prop C16
//@ contract (*chain.Chain).GetBlock (*chain.Chain).GetBlockID
func vc_GetBlock(hash consensus.Hash, l consensus.BlockList, height uint64) {
	s := &vStore{list: l}
	c := &Chain{storage: s}
	b := c.GetBlock(hash)
	if hash == nil {
		vEnsure("no hash, no block", b == nil)
	} else {
		vEnsure("the stored block", b == s.GetBlock(consensus.BlockID{Hash: hash}))
	}
	vEnsure("by height", c.GetBlockID(consensus.BlockID{Height: &height}) == s.GetBlock(consensus.BlockID{Height: &height}))
}

// vTrail: storage that is asked for one block after the other.
type vTrail struct {
	vStore
	blocks []consensus.Block
	at     int
	wrong  bool
}

func (t *vTrail) GetBlock(id consensus.BlockID) *consensus.Block {
	if id.Height != nil || !bytes.Equal(id.Hash, t.blocks[t.at].Header.Previous) {
		t.wrong = true
	}
	t.at++
	if t.at >= len(t.blocks) {
		return nil
	}
	return &t.blocks[t.at]
}

//@ prop C15
//@ contract (*chain.Chain).Validate
//@ using (*consensus.Block).Validate (*consensus.Block).Hash
//@ shape l 5
//@ split d 1 5
//@ split w 0 1
//@ depth chains of up to five blocks, every content of them
func vc_Chain_Validate(l []consensus.Block, genesis consensus.Block, d, w uint8) {
	whole := w == 1
	vRequire(consensus.BlockFits(&genesis) && vForall(5, func(k int) bool { return consensus.BlockFits(&l[k]) }))
	for k := 0; k < int(d); k++ {
		vRequire(sameHash(&l[k], &genesis) == (whole && k == int(d)-1))
	}
	s := &vTrail{blocks: l[:d]}
	c := &Chain{storage: s, genesis: &genesis, head: &l[0]}
	err := c.Validate()
	vEnsure("lock released", !vLocked(&c.RWMutex))
	vEnsure("nothing changed", c.head == &l[0] && c.genesis == &genesis && !s.changed)
	if err == nil {
		vEnsure("the chain reaches the genesis block", whole && s.at == int(d)-1 && !s.wrong)
		for k := 0; k < int(d)-1; k++ {
			vEnsure("every block valid", consensus.BlockRules(&l[k]))
		}
	}
}
