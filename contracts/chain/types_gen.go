package chain

import (
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/yoss22/bulletproofs"
)

// vgenHistory: a chain, the block of height k in place k.
func vgenHistory(g *vGen, n int) consensus.BlockList {
	l := make(consensus.BlockList, n)
	t := int64(1500000000)
	step := []int64{1, 30, 60, 120}[g.r.Intn(4)]
	low := uint64(1) << uint(g.r.Intn(30))
	for k := range l {
		h := &l[k].Header
		*h = vgen_BlockHeader(g, "", nil)
		vTidy(g, h)
		h.Height = uint64(k)
		h.Timestamp = time.Unix(t, 0).UTC()
		h.Difficulty = consensus.Difficulty(low + uint64(k)*low/8 + g.r.Uint64()%low)
		t += step + int64(g.r.Intn(9))
		if k > n/2 {
			t += step / 2
		}
	}
	return l
}

func vTidy(g *vGen, h *consensus.BlockHeader) {
	for _, p := range []*consensus.Hash{&h.Previous, &h.PreviousRoot, &h.UTXORoot, &h.RangeProofRoot, &h.KernelRoot, &h.TotalKernelOffset} {
		*p = make([]byte, 32)
		g.r.Read(*p)
	}
	h.POW.EdgeBits, h.ScalingDifficulty, h.Version = 29, 1, 1
	h.POW.Nonces = make([]uint32, 42)
	for i := range h.POW.Nonces {
		h.POW.Nonces[i] = uint32(i*100 + g.r.Intn(100))
	}
}

func vgen_vCase(g *vGen, path string, idx []int) vCase {
	var c vCase
	n := []int{1, 2, 5, 12, 59, 70, 71, 72, 73, 90}[g.r.Intn(10)]
	c.l = vgenHistory(g, n)
	c.head = c.l[n-1]
	k := n - 1
	if g.r.Intn(3) == 0 {
		k = g.r.Intn(n)
	}
	b := &c.block.Header
	*b = vgen_BlockHeader(g, "", nil)
	vTidy(g, b)
	p := &c.l[k].Header
	h := consensus.BlockHash(&p.POW)
	b.Previous, b.Height = h[:], uint64(k+1)
	if g.r.Intn(6) == 0 {
		b.Height = uint64(g.r.Intn(n + 3))
	}
	b.Timestamp = p.Timestamp.Add(time.Second * time.Duration([]int{1, 1, 60, 3600, 1, 0, -1}[g.r.Intn(7)]))
	b.TotalDifficulty = p.TotalDifficulty + consensus.Difficulty(consensus.ProofDifficulty(&p.POW))
	if g.r.Intn(5) == 0 {
		b.TotalDifficulty += consensus.Difficulty(g.r.Intn(3)) - 1
	}
	latest := consensus.BlockList{}
	for i := k; i >= 0 && len(latest) < 71; i-- {
		latest = append(latest, c.l[i])
	}
	b.Difficulty = consensus.Difficulty(consensus.Required(latest))
	switch g.r.Intn(4) {
	case 0:
		b.Difficulty += consensus.Difficulty(g.r.Intn(3)) - 1
	case 1:
		b.Difficulty /= 2
	}
	o := vgen_Output(g, "", nil)
	o.Features, o.Commit, o.RangeProof = 1, &bulletproofs.Point{X: vPool.commit.X, Y: vPool.commit.Y}, vPool.proof
	c.block.Outputs = consensus.OutputList{o}
	r := vgen_TxKernel(g, "", nil)
	r.Features = 1
	vSignKernel(g, &r)
	c.block.Kernels = consensus.TxKernelList{r}
	for i := 0; i < 200 && !consensus.ProofRules(b); i++ {
		b.Nonce = g.r.Uint64()
	}
	if g.r.Intn(10) == 0 {
		b.Nonce++
	}
	return c
}

func vgen_vRequest(g *vGen, path string, idx []int) vRequest {
	var q vRequest
	n := []int{1, 2, 20, 513, 514, 515, 600}[g.r.Intn(7)]
	q.l = vgenHistory(g, n)
	q.head = q.l[n-1]
	if g.r.Intn(4) == 0 {
		q.head.Header = vgenHistory(g, 1)[0].Header
	}
	for i := 15 + g.r.Intn(6); i > 0; i-- {
		h := make(consensus.Hash, 32)
		g.r.Read(h)
		switch g.r.Intn(8) {
		case 0:
			x := consensus.BlockHash(&q.l[g.r.Intn(n)].Header.POW)
			copy(h, x[:])
		case 1:
			if g.r.Intn(4) == 0 {
				x := consensus.BlockHash(&q.head.Header.POW)
				copy(h, x[:])
			}
		}
		q.hashes = append(q.hashes, h)
	}
	return q
}
