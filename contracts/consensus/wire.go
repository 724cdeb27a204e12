package consensus

import (
	"io"
	"time"
)

// Locators, proofs of work and block headers on the wire.

// proofOK: a proof that can be sent.
func proofOK(p *Proof) bool {
	return p.EdgeBits >= 1 && p.EdgeBits <= 64 && len(p.Nonces) == 42
}

// nonceFits: the nonces of a proof fit its graph.
func NoncesFit(p *Proof) bool {
	return p.EdgeBits >= 32 || vForall(42, func(k int) bool { return p.Nonces[k]>>p.EdgeBits == 0 })
}

func specProof(p *Proof) []byte {
	return vCat(vU8(p.EdgeBits), vPackBits(p.Nonces, int(p.EdgeBits)))
}

// The nonces at EdgeBits bits each, least significant bit first.
//
//@ spec (*consensus.Proof).ProofBytes
func spec_Proof_ProofBytes(p *Proof) []byte {
	vEnsure("precondition of Proof.ProofBytes", proofOK(p))
	return vPackBits(p.Nonces, int(p.EdgeBits))
}

//@ spec (*consensus.Proof).Read
func spec_Proof_Read(p *Proof, r io.Reader) error {
	var b [1]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	p.EdgeBits = b[0]
	if p.EdgeBits == 0 || p.EdgeBits > 64 {
		return vErr()
	}
	n, err := vReadBits(r, 42, int(p.EdgeBits))
	p.Nonces = n
	return err
}

//@ prop C04
//@ contract (*consensus.Proof).ProofBytes
//@ discharges (*consensus.Proof).ProofBytes
//@ shape nonces 42
//@ split bits 1 64
func vc_Proof_ProofBytes(bits uint8, nonces []uint32) {
	p := Proof{EdgeBits: bits, Nonces: nonces}
	vEnsure("packed nonces", vSame(p.ProofBytes(), vPackBits(nonces, int(bits))))
}

//@ prop C04
//@ contract (*consensus.Proof).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_Proof_Bytes(p Proof) {
	vRequire(proofOK(&p))
	vEnsure("layout", vSame(p.Bytes(), specProof(&p)))
}

//@ prop C04 C07
//@ contract (*consensus.Proof).Read
//@ shape nonces 42
//@ split bits 0 65
func vc_Proof_Read(bits uint8, nonces []uint32, rest []byte) {
	if bits == 0 || bits > 64 {
		var q Proof
		vEnsure("size refused", q.Read(vStream(vCat(vU8(bits), rest))) != nil)
		return
	}
	p := Proof{EdgeBits: bits, Nonces: nonces}
	vRequire(NoncesFit(&p))
	r := vStream(vCat(specProof(&p), rest))
	var q Proof
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", vSame(q, p))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

// On any bytes the decoder does what its specification says.
//
//@ prop C04 C06 C07
//@ contract (*consensus.Proof).Read
//@ discharges (*consensus.Proof).Read
//@ alloc 65536
//@ split bits 0 64
func vc_Proof_Read_spec(bits uint8, data []byte) {
	r := vStream(vCat(vU8(bits), data))
	s := vStream(vCat(vU8(bits), data))
	var p, q Proof
	e1 := p.Read(r)
	e2 := spec_Proof_Read(&q, s)
	vEnsure("accepted as specified", (e1 == nil) == (e2 == nil))
	vEnsure("truncated input is an error", vImp(r.Short(), e1 != nil))
	if e1 == nil {
		vEnsure("same value", vSame(p, q))
		vEnsure("exactly consumed", vSame(r.Rest(), s.Rest()))
	}
}

//@ prop C04 C06 C07
//@ contract (*consensus.Proof).Read
//@ discharges (*consensus.Proof).Read
//@ alloc 65536
func vc_Proof_Read_size(bits uint8, data []byte) {
	vRequire(bits == 0 || bits > 64)
	var p Proof
	vEnsure("size refused", p.Read(vStream(vCat(vU8(bits), data))) != nil)
	vEnsure("nothing to read", p.Read(vStream(nil)) != nil)
}

func HeaderOK(b *BlockHeader) bool {
	return len(b.Previous) == 32 && len(b.PreviousRoot) == 32 && len(b.UTXORoot) == 32 && len(b.RangeProofRoot) == 32 &&
		len(b.KernelRoot) == 32 && len(b.TotalKernelOffset) == 32 && proofOK(&b.POW)
}

func specHeaderNoPOW(b *BlockHeader) []byte {
	return vCat(vU16(b.Version), vU64(b.Height), vU64(uint64(b.Timestamp.Unix())), b.Previous, b.PreviousRoot, b.UTXORoot,
		b.RangeProofRoot, b.KernelRoot, b.TotalKernelOffset, vU64(b.OutputMmrSize), vU64(b.KernelMmrSize),
		vU64(uint64(b.TotalDifficulty)), vU32(b.ScalingDifficulty), vU64(b.Nonce))
}

func SpecHeader(b *BlockHeader) []byte { return vCat(specHeaderNoPOW(b), specProof(&b.POW)) }

// SameHeader: the same values in every field that is sent.
func SameHeader(a, b *BlockHeader) bool {
	return a.Version == b.Version && a.Height == b.Height && a.Timestamp.Unix() == b.Timestamp.Unix() && vSame(a.Previous, b.Previous) &&
		vSame(a.PreviousRoot, b.PreviousRoot) && vSame(a.UTXORoot, b.UTXORoot) && vSame(a.RangeProofRoot, b.RangeProofRoot) &&
		vSame(a.KernelRoot, b.KernelRoot) && vSame(a.TotalKernelOffset, b.TotalKernelOffset) && a.OutputMmrSize == b.OutputMmrSize &&
		a.KernelMmrSize == b.KernelMmrSize && a.TotalDifficulty == b.TotalDifficulty && a.ScalingDifficulty == b.ScalingDifficulty &&
		a.Nonce == b.Nonce && a.POW.EdgeBits == b.POW.EdgeBits && vSame(a.POW.Nonces, b.POW.Nonces)
}

//@ prop C04
//@ contract (*consensus.BlockHeader).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_BlockHeader_Bytes(b BlockHeader) {
	vRequire(HeaderOK(&b))
	vEnsure("layout", vSame(b.Bytes(), SpecHeader(&b)))
}

//@ prop C04
//@ contract (*consensus.BlockHeader).Read
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_BlockHeader_Read(b BlockHeader, rest []byte) {
	vRequire(HeaderOK(&b) && NoncesFit(&b.POW))
	r := vStream(vCat(SpecHeader(&b), rest))
	var q BlockHeader
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same values", SameHeader(&q, &b))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

func SpecLocator(h *Locator) []byte {
	return vCat(vU8(uint8(len(h.Hashes))), vRep(len(h.Hashes), func(k int) []byte { return h.Hashes[k] }))
}

func HashesOK(h *Locator) bool {
	return vForall(len(h.Hashes), func(k int) bool { return len(h.Hashes[k]) == 32 })
}

//@ prop C04
//@ contract (*consensus.Locator).Bytes
func vc_Locator_Bytes(h Locator) {
	vRequire(len(h.Hashes) <= 14 && HashesOK(&h))
	vEnsure("layout", vSame(h.Bytes(), SpecLocator(&h)))
}

//@ prop C04 C07
//@ contract (*consensus.Locator).Read
func vc_Locator_Read(h Locator, rest []byte) {
	vRequire(len(h.Hashes) <= 255 && HashesOK(&h))
	r := vStream(vCat(SpecLocator(&h), rest))
	var q Locator
	err := q.Read(r)
	vEnsure("accepted within the limit", (err == nil) == (len(h.Hashes) <= 14))
	if err == nil {
		vEnsure("same hashes", vSame(q.Hashes, h.Hashes))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

var _ = time.Now

//@ prop C06 C07
//@ contract (*consensus.BlockHeader).Read
//@ alloc 65536
func vc_BlockHeader_Read_any(b BlockHeader) {
	r := vArbitrary(func() []byte {
		vRequire(HeaderOK(&b))
		return SpecHeader(&b)
	})
	var q BlockHeader
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", err != nil || HeaderOK(&q))
}

//@ prop C06 C07
//@ contract (*consensus.Locator).Read
//@ alloc 65536
func vc_Locator_Read_any(h Locator) {
	r := vArbitrary(func() []byte {
		vRequire(len(h.Hashes) <= 255 && HashesOK(&h))
		return SpecLocator(&h)
	})
	var q Locator
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", err != nil || len(q.Hashes) <= 14 && HashesOK(&q))
}
