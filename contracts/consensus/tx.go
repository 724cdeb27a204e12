package consensus

import (
	"bytes"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// Inputs, outputs, kernels, transactions, blocks and compact blocks on the wire.

func specInput(in *Input) []byte { return vCat(vU8(uint8(in.Features)), in.Commit) }

func specOutputShort(o *Output) []byte { return vCat(vU8(uint8(o.Features)), o.Commit.Bytes()) }

func specOutput(o *Output) []byte {
	p := o.RangeProof.Bytes()
	return vCat(specOutputShort(o), vU64(uint64(len(p))), p)
}

func specKernel(k *TxKernel) []byte {
	return vCat(vU8(uint8(k.Features)), vU64(k.Fee), vU64(k.LockHeight), k.Excess.Bytes(), k.ExcessSig[:])
}

func inputOK(in *Input) bool { return len(in.Commit) == 33 }

func inputsOK(l InputList) bool {
	return vForall(len(l), func(k int) bool { return inputOK(&l[k]) })
}

func idsOK(l ShortIDList) bool {
	return vForall(len(l), func(k int) bool { return len(l[k]) == 6 })
}

func blake(b []byte) []byte {
	h := blake2b.Sum256(b)
	return h[:]
}

// The orders on the wire.
func inputLess(a, b *Input) bool { return bytes.Compare(blake(specInput(a)), blake(specInput(b))) < 0 }
func outputLess(a, b *Output) bool {
	return bytes.Compare(blake(specOutputShort(a)), blake(specOutputShort(b))) < 0
}
func kernelLess(a, b *TxKernel) bool {
	return bytes.Compare(blake(specKernel(a)), blake(specKernel(b))) < 0
}

func sortedInputs(l InputList) InputList {
	r := append(InputList{}, l...)
	sort.Slice(r, func(i, j int) bool { return inputLess(&r[i], &r[j]) })
	return r
}

func sortedOutputs(l OutputList) OutputList {
	r := append(OutputList{}, l...)
	sort.Slice(r, func(i, j int) bool { return outputLess(&r[i], &r[j]) })
	return r
}

func sortedKernels(l TxKernelList) TxKernelList {
	r := append(TxKernelList{}, l...)
	sort.Slice(r, func(i, j int) bool { return kernelLess(&r[i], &r[j]) })
	return r
}

func sortedIDs(l ShortIDList) ShortIDList {
	r := append(ShortIDList{}, l...)
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i], r[j]) < 0 })
	return r
}

func specInputs(l InputList) []byte {
	return vRep(len(l), func(k int) []byte { return specInput(&l[k]) })
}
func specOutputs(l OutputList) []byte {
	return vRep(len(l), func(k int) []byte { return specOutput(&l[k]) })
}
func specKernels(l TxKernelList) []byte {
	return vRep(len(l), func(k int) []byte { return specKernel(&l[k]) })
}
func specIDs(l ShortIDList) []byte {
	return vRep(len(l), func(k int) []byte { return l[k] })
}

func sameInput(a, b *Input) bool { return a.Features == b.Features && vSame(a.Commit, b.Commit) }
func sameOutput(a, b *Output) bool {
	return a.Features == b.Features && vSame(a.Commit, b.Commit) && vSame(a.RangeProof, b.RangeProof)
}
func sameKernel(a, b *TxKernel) bool {
	return a.Features == b.Features && a.Fee == b.Fee && a.LockHeight == b.LockHeight && vSame(a.Excess, b.Excess) && a.ExcessSig == b.ExcessSig
}

func sameInputs(a, b InputList) bool {
	return len(a) == len(b) && vForall(len(b), func(k int) bool { return sameInput(&a[k], &b[k]) })
}
func sameOutputs(a, b OutputList) bool {
	return len(a) == len(b) && vForall(len(b), func(k int) bool { return sameOutput(&a[k], &b[k]) })
}
func sameKernels(a, b TxKernelList) bool {
	return len(a) == len(b) && vForall(len(b), func(k int) bool { return sameKernel(&a[k], &b[k]) })
}
func sameIDs(a, b ShortIDList) bool {
	return len(a) == len(b) && vForall(len(b), func(k int) bool { return vSame(a[k], b[k]) })
}

//@ prop C05
//@ contract (*consensus.Input).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Input_Bytes(in Input) {
	vRequire(inputOK(&in))
	vEnsure("layout", vSame(in.Bytes(), specInput(&in)))
}

//@ prop C05 C07
//@ contract (*consensus.Input).Read
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Input_Read(in Input, rest []byte) {
	vRequire(inputOK(&in))
	r := vStream(vCat(specInput(&in), rest))
	var q Input
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", sameInput(&q, &in))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*consensus.Input).Read
//@ alloc 65536
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Input_Read_any(in Input) {
	r := vArbitrary(func() []byte { return specInput(&in) })
	var q Input
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("well formed", err != nil || inputOK(&q))
}

//@ prop C05
//@ contract (*consensus.Output).Bytes
func vc_Output_Bytes(o Output) {
	vEnsure("layout", vSame(o.Bytes(), specOutput(&o)))
	vEnsure("layout without proof", vSame(o.BytesWithoutProof(), specOutputShort(&o)))
}

//@ prop C05 C07
//@ contract (*consensus.Output).Read
func vc_Output_Read(o Output, rest []byte) {
	r := vStream(vCat(specOutput(&o), rest))
	var q Output
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", sameOutput(&q, &o))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*consensus.Output).Read
//@ alloc 65536
func vc_Output_Read_any(o Output) {
	r := vArbitrary(func() []byte { return specOutput(&o) })
	var q Output
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("well formed", err != nil || q.Commit != nil)
}

// A range proof that is not exactly as long as declared is refused, and so is
// a declared length over the limit.
//
//@ prop C06 C07
//@ contract (*consensus.Output).Read
//@ alloc 65536
func vc_Output_Read_proof(o Output, n uint64, rest []byte) {
	vRequire(n != 675)
	p := o.RangeProof.Bytes()
	r := vStream(vCat(specOutputShort(&o), vU64(n), p, rest))
	var q Output
	vEnsure("length refused", q.Read(r) != nil)
	vEnsure("nothing read beyond the declared proof", 675+uint64(len(rest))-r.Left() <= n)
}

//@ prop C05
//@ contract (*consensus.TxKernel).Bytes
func vc_TxKernel_Bytes(k TxKernel) {
	vEnsure("layout", vSame(k.Bytes(), specKernel(&k)))
}

//@ prop C05 C07
//@ contract (*consensus.TxKernel).Read
func vc_TxKernel_Read(k TxKernel, rest []byte) {
	r := vStream(vCat(specKernel(&k), rest))
	var q TxKernel
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", sameKernel(&q, &k))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*consensus.TxKernel).Read
//@ alloc 65536
func vc_TxKernel_Read_any(k TxKernel) {
	r := vArbitrary(func() []byte { return specKernel(&k) })
	var q TxKernel
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
}

func specTx(off [32]byte, in InputList, out OutputList, ker TxKernelList) []byte {
	return vCat(off[:], vU64(uint64(len(in))), vU64(uint64(len(out))), vU64(uint64(len(ker))),
		specInputs(in), specOutputs(out), specKernels(ker))
}

//@ prop C05
//@ contract (*consensus.Transaction).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Transaction_Bytes(t Transaction) {
	vRequire(inputsOK(t.Inputs))
	in, out, ker := sortedInputs(t.Inputs), sortedOutputs(t.Outputs), sortedKernels(t.Kernels)
	vEnsure("layout", vSame(t.Bytes(), specTx(t.KernelOffset, in, out, ker)))
	vEnsure("type", t.Type() == 15)
}

//@ prop C05 C07
//@ contract (*consensus.Transaction).Read
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Transaction_Read(t Transaction, rest []byte) {
	vRequire(inputsOK(t.Inputs))
	vRequire(len(t.Inputs) <= 1000000 && len(t.Outputs) <= 1000000 && len(t.Kernels) <= 1000000)
	in, out, ker := sortedInputs(t.Inputs), sortedOutputs(t.Outputs), sortedKernels(t.Kernels)
	r := vStream(vCat(specTx(t.KernelOffset, in, out, ker), rest))
	var q Transaction
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same offset", q.KernelOffset == t.KernelOffset)
	vEnsure("same inputs in order", sameInputs(q.Inputs, in))
	vEnsure("same outputs in order", sameOutputs(q.Outputs, out))
	vEnsure("same kernels in order", sameKernels(q.Kernels, ker))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

// A transaction is refused when one of its lists is out of order.
//
//@ prop C07
//@ contract (*consensus.Transaction).Read
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Transaction_Read_order(t Transaction, rest []byte) {
	vRequire(inputsOK(t.Inputs))
	r := vStream(vCat(specTx(t.KernelOffset, t.Inputs, t.Outputs, t.Kernels), rest))
	var q Transaction
	err := q.Read(r)
	vEnsure("inputs in order", err != nil || vForall(len(t.Inputs)-1, func(k int) bool { return !inputLess(&t.Inputs[k+1], &t.Inputs[k]) }))
	vEnsure("outputs in order", err != nil || vForall(len(t.Outputs)-1, func(k int) bool { return !outputLess(&t.Outputs[k+1], &t.Outputs[k]) }))
	vEnsure("kernels in order", err != nil || vForall(len(t.Kernels)-1, func(k int) bool { return !kernelLess(&t.Kernels[k+1], &t.Kernels[k]) }))
}

//@ prop C06 C07
//@ contract (*consensus.Transaction).Read
//@ alloc 300000000
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Transaction_Read_any(t Transaction) {
	r := vArbitrary(func() []byte {
		vRequire(inputsOK(t.Inputs))
		return specTx(t.KernelOffset, sortedInputs(t.Inputs), sortedOutputs(t.Outputs), sortedKernels(t.Kernels))
	})
	var q Transaction
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", err != nil || len(q.Inputs) <= 1000000 && len(q.Outputs) <= 1000000 && len(q.Kernels) <= 1000000)
}

func specBlock(h *BlockHeader, in InputList, out OutputList, ker TxKernelList) []byte {
	return vCat(SpecHeader(h), vU64(uint64(len(in))), vU64(uint64(len(out))), vU64(uint64(len(ker))),
		specInputs(in), specOutputs(out), specKernels(ker))
}

//@ prop C05
//@ contract (*consensus.Block).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Block_Bytes(b Block) {
	vRequire(HeaderOK(&b.Header) && inputsOK(b.Inputs))
	in, out, ker := sortedInputs(b.Inputs), sortedOutputs(b.Outputs), sortedKernels(b.Kernels)
	vEnsure("layout", vSame(b.Bytes(), specBlock(&b.Header, in, out, ker)))
	vEnsure("type", b.Type() == 11)
}

//@ prop C05 C07
//@ contract (*consensus.Block).Read
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Block_Read(b Block, rest []byte) {
	vRequire(HeaderOK(&b.Header) && NoncesFit(&b.Header.POW) && inputsOK(b.Inputs))
	r := vStream(vCat(specBlock(&b.Header, b.Inputs, b.Outputs, b.Kernels), rest))
	var q Block
	err := q.Read(r)
	vEnsure("accepted within the limits", (err == nil) == (len(b.Inputs) <= 1000000 && len(b.Outputs) <= 1000000 && len(b.Kernels) <= 1000000))
	if err == nil {
		vEnsure("same header", SameHeader(&q.Header, &b.Header))
		vEnsure("same inputs in order", sameInputs(q.Inputs, b.Inputs))
		vEnsure("same outputs in order", sameOutputs(q.Outputs, b.Outputs))
		vEnsure("same kernels in order", sameKernels(q.Kernels, b.Kernels))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*consensus.Block).Read
//@ alloc 300000000
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_Block_Read_any(b Block) {
	r := vArbitrary(func() []byte {
		vRequire(HeaderOK(&b.Header) && inputsOK(b.Inputs))
		return specBlock(&b.Header, b.Inputs, b.Outputs, b.Kernels)
	})
	var q Block
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", err != nil || len(q.Inputs) <= 1000000 && len(q.Outputs) <= 1000000 && len(q.Kernels) <= 1000000)
}

func specCompact(h *BlockHeader, out OutputList, ker TxKernelList, ids ShortIDList) []byte {
	return vCat(SpecHeader(h), vU8(uint8(len(out))), vU8(uint8(len(ker))), vU64(uint64(len(ids))),
		specOutputs(out), specKernels(ker), specIDs(ids))
}

//@ prop C05
//@ contract (*consensus.CompactBlock).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_CompactBlock_Bytes(b CompactBlock) {
	vRequire(HeaderOK(&b.Header) && idsOK(b.KernelIDs) && len(b.Outputs) <= 255 && len(b.Kernels) <= 255)
	out, ker, ids := sortedOutputs(b.Outputs), sortedKernels(b.Kernels), sortedIDs(b.KernelIDs)
	vEnsure("layout", vSame(b.Bytes(), specCompact(&b.Header, out, ker, ids)))
	vEnsure("type", b.Type() == 13)
}

//@ prop C05 C07
//@ contract (*consensus.CompactBlock).Read
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_CompactBlock_Read(b CompactBlock, rest []byte) {
	vRequire(HeaderOK(&b.Header) && NoncesFit(&b.Header.POW) && idsOK(b.KernelIDs) && len(b.Outputs) <= 255 && len(b.Kernels) <= 255)
	r := vStream(vCat(specCompact(&b.Header, b.Outputs, b.Kernels, b.KernelIDs), rest))
	var q CompactBlock
	err := q.Read(r)
	vEnsure("accepted within the limits", (err == nil) == (len(b.KernelIDs) <= 1000000))
	if err == nil {
		vEnsure("same header", SameHeader(&q.Header, &b.Header))
		vEnsure("same outputs in order", sameOutputs(q.Outputs, b.Outputs))
		vEnsure("same kernels in order", sameKernels(q.Kernels, b.Kernels))
		vEnsure("same ids in order", sameIDs(q.KernelIDs, b.KernelIDs))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*consensus.CompactBlock).Read
//@ alloc 300000000
func vc_CompactBlock_Read_any(b CompactBlock) {
	r := vArbitrary(func() []byte {
		vRequire(HeaderOK(&b.Header) && idsOK(b.KernelIDs) && len(b.Outputs) <= 255 && len(b.Kernels) <= 255)
		return specCompact(&b.Header, b.Outputs, b.Kernels, b.KernelIDs)
	})
	var q CompactBlock
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", err != nil || len(q.KernelIDs) <= 1000000)
}

// Exchanging two elements, as sorting relies on.

//@ prop C05 C13
//@ contract (consensus.InputList).Swap
//@ shape github.com/dblokhin/gringo/consensus.Input.Commit 33
func vc_InputList_Swap(l InputList, a0, b0, c0 uint32) {
	i, j, o := int(a0), int(b0), int(c0)
	if len(l) > 0 {
		i, j, o = i%len(l), j%len(l), o%len(l)
	}
	vRequire(0 <= i && i < len(l) && 0 <= j && j < len(l) && 0 <= o && o < len(l) && o != i && o != j)
	if i == j {
		a := l[i]
		l.Swap(i, j)
		vEnsure("unchanged", vSame(l[i], a))
	} else {
		a, b, c := l[i], l[j], l[o]
		l.Swap(i, j)
		vEnsure("exchanged", vSame(l[i], b) && vSame(l[j], a))
		vEnsure("others unchanged", vSame(l[o], c))
	}
	vEnsure("length", l.Len() == len(l))
}

//@ prop C05 C13
//@ contract (consensus.OutputList).Swap
func vc_OutputList_Swap(l OutputList, a0, b0, c0 uint32) {
	i, j, o := int(a0), int(b0), int(c0)
	if len(l) > 0 {
		i, j, o = i%len(l), j%len(l), o%len(l)
	}
	vRequire(0 <= i && i < len(l) && 0 <= j && j < len(l) && 0 <= o && o < len(l) && o != i && o != j)
	if i == j {
		a := l[i]
		l.Swap(i, j)
		vEnsure("unchanged", vSame(l[i], a))
	} else {
		a, b, c := l[i], l[j], l[o]
		l.Swap(i, j)
		vEnsure("exchanged", vSame(l[i], b) && vSame(l[j], a))
		vEnsure("others unchanged", vSame(l[o], c))
	}
	vEnsure("length", l.Len() == len(l))
}

//@ prop C05 C13
//@ contract (consensus.TxKernelList).Swap
func vc_TxKernelList_Swap(l TxKernelList, a0, b0, c0 uint32) {
	i, j, o := int(a0), int(b0), int(c0)
	if len(l) > 0 {
		i, j, o = i%len(l), j%len(l), o%len(l)
	}
	vRequire(0 <= i && i < len(l) && 0 <= j && j < len(l) && 0 <= o && o < len(l) && o != i && o != j)
	if i == j {
		a := l[i]
		l.Swap(i, j)
		vEnsure("unchanged", vSame(l[i], a))
	} else {
		a, b, c := l[i], l[j], l[o]
		l.Swap(i, j)
		vEnsure("exchanged", vSame(l[i], b) && vSame(l[j], a))
		vEnsure("others unchanged", vSame(l[o], c))
	}
	vEnsure("length", l.Len() == len(l))
}

//@ prop C05 C13
//@ contract (consensus.ShortIDList).Swap
func vc_ShortIDList_Swap(l ShortIDList, a0, b0, c0 uint32) {
	i, j, o := int(a0), int(b0), int(c0)
	if len(l) > 0 {
		i, j, o = i%len(l), j%len(l), o%len(l)
	}
	vRequire(0 <= i && i < len(l) && 0 <= j && j < len(l) && 0 <= o && o < len(l) && o != i && o != j)
	if i == j {
		a := l[i]
		l.Swap(i, j)
		vEnsure("unchanged", vSame(l[i], a))
	} else {
		a, b, c := l[i], l[j], l[o]
		l.Swap(i, j)
		vEnsure("exchanged", vSame(l[i], b) && vSame(l[j], a))
		vEnsure("others unchanged", vSame(l[o], c))
	}
	vEnsure("length", l.Len() == len(l))
}
