package consensus

import (
	"bytes"

	"github.com/dchest/siphash"
)

//@ prop C13
//@ contract (*consensus.Input).Hash
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Input_Hash(in Input) {
	vEnsure("of features and commitment", vSame(in.Hash(), blake(specInput(&in))))
}

//@ prop C13
//@ contract (*consensus.Output).Hash
func vc_Output_Hash(o Output) {
	vEnsure("of features and commitment", vSame(o.Hash(), blake(specOutputShort(&o))))
}

//@ prop C13
//@ contract (*consensus.TxKernel).Hash
func vc_TxKernel_Hash(k TxKernel) {
	vEnsure("of the whole encoding", vSame(k.Hash(), blake(specKernel(&k))))
}

//@ prop C13
//@ contract (*consensus.Block).Hash (*consensus.CompactBlock).Hash (*consensus.BlockHeader).Hash
//@ discharges (*consensus.Block).Hash (*consensus.BlockHeader).Hash
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_Block_Hash(h BlockHeader) {
	vRequire(proofOK(&h.POW))
	w := blake(vPackBits(h.POW.Nonces, int(h.POW.EdgeBits)))
	b, c := Block{Header: h}, CompactBlock{Header: h}
	vEnsure("of the packed nonces", vSame(h.Hash(), w))
	vEnsure("of a block", vSame(b.Hash(), w))
	vEnsure("of a compact block", vSame(c.Hash(), w))
}

//@ prop C13
//@ contract (*consensus.Proof).Hash
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_Proof_Hash(p Proof) {
	vRequire(proofOK(&p))
	vEnsure("of the encoding", vSame(p.Hash(), blake(specProof(&p))))
}

//@ prop C13
//@ contract (consensus.InputList).Less (consensus.InputList).Len
//@ discharges (consensus.InputList).Less
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_InputList_Less(l InputList, a, b uint32) {
	vRequire(inputsOK(l) && int(a) < len(l) && int(b) < len(l))
	vEnsure("ascending hash", l.Less(int(a), int(b)) == inputLess(&l[a], &l[b]))
	vEnsure("length", l.Len() == len(l))
}

//@ prop C13
//@ contract (consensus.OutputList).Less (consensus.OutputList).Len
//@ discharges (consensus.OutputList).Less
func vc_OutputList_Less(l OutputList, a, b uint32) {
	vRequire(int(a) < len(l) && int(b) < len(l))
	vEnsure("ascending hash", l.Less(int(a), int(b)) == outputLess(&l[a], &l[b]))
	vEnsure("length", l.Len() == len(l))
}

//@ prop C13
//@ contract (consensus.TxKernelList).Less (consensus.TxKernelList).Len
//@ discharges (consensus.TxKernelList).Less
func vc_TxKernelList_Less(l TxKernelList, a, b uint32) {
	vRequire(int(a) < len(l) && int(b) < len(l))
	vEnsure("ascending hash", l.Less(int(a), int(b)) == kernelLess(&l[a], &l[b]))
	vEnsure("length", l.Len() == len(l))
}

//@ prop C13
//@ contract (consensus.ShortIDList).Less (consensus.ShortIDList).Len
func vc_ShortIDList_Less(l ShortIDList, a, b uint32) {
	vRequire(idsOK(l) && int(a) < len(l) && int(b) < len(l))
	vEnsure("ascending bytes", l.Less(int(a), int(b)) == (bytes.Compare(l[a], l[b]) < 0))
	vEnsure("length", l.Len() == len(l))
}

func leU64(b []byte) uint64 {
	var x uint64
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

//@ prop C13
//@ contract (consensus.Hash).ShortID
func vc_Hash_ShortID(h Hash, block [32]byte) {
	id := h.ShortID(Hash(block[:]))
	s := siphash.Hash(leU64(block[0:8]), leU64(block[8:16]), h)
	vEnsure("length", len(id) == 6)
	vEnsure("low bytes of the keyed hash", vSame(id, []byte{byte(s), byte(s >> 8), byte(s >> 16), byte(s >> 24), byte(s >> 32), byte(s >> 40)}))
}

// BlockHash: the hash of a block, a function of its proof.
//@ abstract
func BlockHash(p *Proof) [32]byte {
	var h [32]byte
	copy(h[:], blake(vPackBits(p.Nonces, int(p.EdgeBits))))
	return h
}

//@ spec (*consensus.Block).Hash optin
func spec_Block_Hash(b *Block) Hash {
	vEnsure("precondition of Block.Hash", proofOK(&b.Header.POW))
	h := BlockHash(&b.Header.POW)
	return h[:]
}

//@ spec (*consensus.BlockHeader).Hash optin
func spec_BlockHeader_Hash(b *BlockHeader) Hash {
	vEnsure("precondition of BlockHeader.Hash", proofOK(&b.POW))
	h := BlockHash(&b.POW)
	return h[:]
}
