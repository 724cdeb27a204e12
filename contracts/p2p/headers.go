package p2p

import (
	"github.com/dblokhin/gringo/consensus"
)

// Header notifications, header lists and header requests.

//@ prop C04
//@ contract (*p2p.BlockHeader).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_BlockHeader_Bytes(h BlockHeader) {
	vRequire(consensus.HeaderOK(&h.Header))
	vEnsure("layout", vSame(h.Bytes(), consensus.SpecHeader(&h.Header)))
	vEnsure("type", h.Type() == 8)
}

//@ prop C04
//@ contract (*p2p.BlockHeader).Read
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_BlockHeader_Read(h BlockHeader, rest []byte) {
	vRequire(consensus.HeaderOK(&h.Header) && consensus.NoncesFit(&h.Header.POW))
	r := vStream(vCat(consensus.SpecHeader(&h.Header), rest))
	var q BlockHeader
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same values", consensus.SameHeader(&q.Header, &h.Header))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06 C07
//@ contract (*p2p.BlockHeader).Read
//@ alloc 65536
func vc_BlockHeader_Read_any(h BlockHeader) {
	r := vArbitrary(func() []byte {
		vRequire(consensus.HeaderOK(&h.Header))
		return consensus.SpecHeader(&h.Header)
	})
	var q BlockHeader
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", err != nil || consensus.HeaderOK(&q.Header))
}

func specHeaders(h *BlockHeaders) []byte {
	return vCat(vU16(uint16(len(h.Headers))), vRep(len(h.Headers), func(k int) []byte { return consensus.SpecHeader(&h.Headers[k]) }))
}

//@ prop C04
//@ contract (*p2p.BlockHeaders).Bytes
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_BlockHeaders_Bytes(h BlockHeaders) {
	vRequire(len(h.Headers) <= 512 && vForall(len(h.Headers), func(k int) bool { return consensus.HeaderOK(&h.Headers[k]) }))
	vEnsure("layout", vSame(h.Bytes(), specHeaders(&h)))
	vEnsure("type", h.Type() == 9)
}

//@ prop C04 C07
//@ contract (*p2p.BlockHeaders).Read
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_BlockHeaders_Read(h BlockHeaders, rest []byte) {
	vRequire(len(h.Headers) <= 65535)
	vRequire(vForall(len(h.Headers), func(k int) bool {
		return consensus.HeaderOK(&h.Headers[k]) && consensus.NoncesFit(&h.Headers[k].POW)
	}))
	r := vStream(vCat(specHeaders(&h), rest))
	var q BlockHeaders
	err := q.Read(r)
	vEnsure("accepted within the limit", (err == nil) == (len(h.Headers) <= 512))
	if err == nil {
		vEnsure("same count", len(q.Headers) == len(h.Headers))
		vEnsure("same headers in order", vForall(len(h.Headers), func(k int) bool { return consensus.SameHeader(&q.Headers[k], &h.Headers[k]) }))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*p2p.BlockHeaders).Read
//@ alloc 1000000
func vc_BlockHeaders_Read_any(h BlockHeaders) {
	r := vArbitrary(func() []byte {
		vRequire(vForall(len(h.Headers), func(k int) bool { return consensus.HeaderOK(&h.Headers[k]) }))
		return specHeaders(&h)
	})
	var q BlockHeaders
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", vImp(err == nil, len(q.Headers) <= 512))
}

//@ prop C04
//@ contract (*p2p.GetBlockHeaders).Bytes
func vc_GetBlockHeaders_Bytes(h GetBlockHeaders) {
	vRequire(len(h.Locator.Hashes) <= 14 && consensus.HashesOK(&h.Locator))
	vEnsure("layout", vSame(h.Bytes(), consensus.SpecLocator(&h.Locator)))
	vEnsure("type", h.Type() == 7)
}

//@ prop C04 C07
//@ contract (*p2p.GetBlockHeaders).Read
func vc_GetBlockHeaders_Read(h GetBlockHeaders, rest []byte) {
	vRequire(len(h.Locator.Hashes) <= 255 && consensus.HashesOK(&h.Locator))
	r := vStream(vCat(consensus.SpecLocator(&h.Locator), rest))
	var q GetBlockHeaders
	err := q.Read(r)
	vEnsure("accepted within the limit", (err == nil) == (len(h.Locator.Hashes) <= 14))
	if err == nil {
		vEnsure("same hashes", vSame(q.Locator.Hashes, h.Locator.Hashes))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*p2p.GetBlockHeaders).Read
//@ alloc 65536
func vc_GetBlockHeaders_Read_any(h GetBlockHeaders) {
	r := vArbitrary(func() []byte {
		vRequire(len(h.Locator.Hashes) <= 255 && consensus.HashesOK(&h.Locator))
		return consensus.SpecLocator(&h.Locator)
	})
	var q GetBlockHeaders
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", vImp(err == nil, len(q.Locator.Hashes) <= 14))
}
