package consensus

import (
	"time"

	"github.com/dblokhin/gringo/cuckoo"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
)

// When contracts of this package are executed, the verifier of cycles is
// replaced by its contract: some predicate of keys, nonces and graph size.
func init() { cuckoo.VPseudo = true }

// headerHashes: the hashes of a header have their length.
func headerHashes(b *BlockHeader) bool {
	return len(b.Previous) == 32 && len(b.PreviousRoot) == 32 && len(b.UTXORoot) == 32 && len(b.RangeProofRoot) == 32 && len(b.KernelRoot) == 32
}

// specVersion: the version scheduled for a height, none after the last.
func specVersion(height uint64, version uint16) bool {
	return height < 95000 && version == 1 || height >= 95000 && height < 250000 && version == 2 ||
		height >= 250000 && height < 500000 && version == 3
}

// specPow: 42 nonces that are a cycle of the graph keyed by the header.
func specPow(b *BlockHeader) bool {
	return len(b.POW.Nonces) == 42 && cuckoo.VPow(cuckoo.SpecKeys(specHeaderNoPOW(b)), b.POW.Nonces, b.POW.EdgeBits)
}

// specRules: the rules of a header but for its time.
func specRules(b *BlockHeader) bool {
	return specVersion(b.Height, b.Version) && (b.POW.EdgeBits == 29 || b.POW.EdgeBits >= 30 && b.ScalingDifficulty == 1) && specPow(b)
}

//@ prop C10
//@ contract consensus.ValidateBlockVersion
func vc_ValidateBlockVersion(height uint64, version uint16) {
	vEnsure("schedule", ValidateBlockVersion(height, version) == specVersion(height, version))
}

//@ prop C08 C10 C13
//@ contract (*consensus.Proof).Validate
func vc_Proof_Validate(b BlockHeader) {
	vRequire(headerHashes(&b))
	vEnsure("exactly 42 nonces that verify over the header", (b.POW.Validate(&b, b.POW.EdgeBits) == nil) == specPow(&b))
}

//@ prop C10
//@ contract (*consensus.BlockHeader).Validate
//@ discharges (*consensus.BlockHeader).Validate
func vc_BlockHeader_Validate(b BlockHeader) {
	vRequire(headerHashes(&b))
	before := time.Now().Unix()
	err := b.Validate()
	after := time.Now().Unix()
	vEnsure("rules", vImp(err == nil, specRules(&b)))
	vEnsure("not too far in the future", vImp(err == nil, b.Timestamp.Unix() <= after+12*60))
	vEnsure("accepted when all rules hold", vImp(specRules(&b) && b.Timestamp.Unix() <= before+12*60, err == nil))
}

//@ prop C11 C12
//@ contract (*consensus.TxKernel).Validate
//@ discharges (*consensus.TxKernel).Validate
func vc_TxKernel_Validate(k TxKernel) {
	vRequire(secp256k1zkp.PointOK(&k.Excess))
	vEnsure("valid exactly when the signature of fee and lock height verifies", (k.Validate() == nil) == specKernelOK(&k))
}

//@ abstract
func kernelOK(k *TxKernel) bool { return specKernelOK(k) }

func specKernelOK(k *TxKernel) bool {
	return secp256k1zkp.SpecSignature(&k.Excess, secp256k1zkp.SpecMessage(k.Fee, k.LockHeight), k.ExcessSig)
}

//@ spec (*consensus.TxKernel).Validate
func spec_TxKernel_Validate(k *TxKernel) error {
	vEnsure("precondition of TxKernel.Validate", secp256k1zkp.PointOK(&k.Excess))
	if kernelOK(k) {
		return nil
	}
	return vErr()
}

//@ spec (*consensus.BlockHeader).Validate
func spec_BlockHeader_Validate(b *BlockHeader) error {
	vEnsure("precondition of BlockHeader.Validate", headerHashes(b))
	if headerOK(b) && b.Timestamp.Unix() <= time.Now().Unix()+12*60 {
		return nil
	}
	return vErr()
}

//@ abstract
func headerOK(b *BlockHeader) bool { return specRules(b) }

func rangeOK(o *Output) bool { return bulletproofs.NewProver(64).Verify(o.Commit, o.RangeProof) }

//@ abstract
func inLess(a, b *Input) bool { return inputLess(a, b) }

//@ abstract
func outLess(a, b *Output) bool { return outputLess(a, b) }

//@ abstract
func kerLess(a, b *TxKernel) bool { return kernelLess(a, b) }

//@ spec (consensus.InputList).Less optin
func spec_InputList_Less(l InputList, i, j int) bool { return inLess(&l[i], &l[j]) }

//@ spec (consensus.OutputList).Less optin
func spec_OutputList_Less(l OutputList, i, j int) bool { return outLess(&l[i], &l[j]) }

//@ spec (consensus.TxKernelList).Less optin
func spec_TxKernelList_Less(l TxKernelList, i, j int) bool { return kerLess(&l[i], &l[j]) }

func inSorted(b *Block) bool {
	return vForall(len(b.Inputs)-1, func(k int) bool { return !inLess(&b.Inputs[k+1], &b.Inputs[k]) })
}

func outSorted(b *Block) bool {
	return vForall(len(b.Outputs)-1, func(k int) bool { return !outLess(&b.Outputs[k+1], &b.Outputs[k]) })
}

func kerSorted(b *Block) bool {
	return vForall(len(b.Kernels)-1, func(k int) bool { return !kerLess(&b.Kernels[k+1], &b.Kernels[k]) })
}

func proofsVerify(b *Block) bool {
	return vForall(len(b.Outputs), func(k int) bool { return rangeOK(&b.Outputs[k]) })
}

func kernelsVerify(b *Block) bool {
	return vForall(len(b.Kernels), func(k int) bool { return kernelOK(&b.Kernels[k]) })
}

func oneCoinbase(b *Block) bool {
	return vCount(len(b.Outputs), func(k int) bool { return b.Outputs[k].Features&1 == 1 }) <= 1
}

func oneReward(b *Block) bool {
	return vCount(len(b.Kernels), func(k int) bool { return b.Kernels[k].Features&1 == 1 }) <= 1
}

func excessOK(l TxKernelList) bool {
	return vForall(len(l), func(k int) bool { return secp256k1zkp.PointOK(&l[k].Excess) })
}

//@ prop C11
//@ contract (*consensus.Block).Validate
//@ discharges (*consensus.Block).Validate
//@ using (consensus.InputList).Less (consensus.OutputList).Less (consensus.TxKernelList).Less
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Block_Validate(b Block) {
	vRequire(headerHashes(&b.Header) && inputsOK(b.Inputs) && excessOK(b.Kernels))
	before := time.Now().Unix()
	err := b.Validate()
	after := time.Now().Unix()
	in, out, ker, coin, fee, proofs, sigs := inSorted(&b), outSorted(&b), kerSorted(&b), oneCoinbase(&b), oneReward(&b), proofsVerify(&b), kernelsVerify(&b)
	head, outputs, kernels := headerOK(&b.Header), len(b.Outputs) > 0, len(b.Kernels) > 0
	if err == nil {
		vEnsure("valid header", head)
		vEnsure("not too far in the future", b.Header.Timestamp.Unix() <= after+12*60)
		vEnsure("an output", outputs)
		vEnsure("a kernel", kernels)
		vEnsure("inputs in order", in)
		vEnsure("outputs in order", out)
		vEnsure("kernels in order", ker)
		vEnsure("at most one coinbase output", coin)
		vEnsure("at most one coinbase kernel", fee)
		vEnsure("range proofs verify", proofs)
		vEnsure("kernels verify", sigs)
	} else {
		early := b.Header.Timestamp.Unix() <= before+12*60
		vEnsure("every block that meets the rules", vImp(head, vImp(early, vImp(outputs, vImp(kernels, vImp(in, vImp(out, vImp(ker, vImp(coin, vImp(fee, vImp(proofs, vImp(sigs, false))))))))))))
	}
}

// BlockFits: the fields of a block have the lengths the decoder gives them.
func BlockFits(b *Block) bool {
	return headerHashes(&b.Header) && proofOK(&b.Header.POW) && inputsOK(b.Inputs) && excessOK(b.Kernels)
}

// HeaderFits: the fields of a header have the lengths the decoder gives them.
func HeaderFits(b *BlockHeader) bool { return headerHashes(b) && proofOK(&b.POW) }

// BlockRules: the rules of a block but for its time.
//@ abstract
func BlockRules(b *Block) bool {
	return headerOK(&b.Header) && len(b.Outputs) > 0 && len(b.Kernels) > 0 && inSorted(b) && outSorted(b) && kerSorted(b) &&
		oneCoinbase(b) && oneReward(b) && proofsVerify(b) && kernelsVerify(b)
}

// HeaderRules: the rules of a header but for its time.
func HeaderRules(b *BlockHeader) bool { return headerOK(b) }

//@ spec (*consensus.Block).Validate optin
func spec_Block_Validate(b *Block) error {
	vEnsure("precondition of Block.Validate", headerHashes(&b.Header) && inputsOK(b.Inputs) && excessOK(b.Kernels))
	if BlockRules(b) && b.Header.Timestamp.Unix() <= time.Now().Unix()+12*60 {
		return nil
	}
	return vErr()
}

// ProofRules: the proof of work of a header is one.
func ProofRules(b *BlockHeader) bool { return specPow(b) }
