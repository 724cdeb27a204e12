package p2p

import (
	"net"

	"github.com/dblokhin/gringo/consensus"
)

// Control messages: layout, round trip and behaviour on arbitrary input.

func specPing(p *Ping) []byte { return vCat(vU64(uint64(p.TotalDifficulty)), vU64(p.Height)) }

//@ prop C02
//@ contract (*p2p.Ping).Bytes
func vc_Ping_Bytes(p Ping) {
	vEnsure("layout", vSame(p.Bytes(), specPing(&p)))
	vEnsure("type", p.Type() == 3)
}

//@ prop C02
//@ contract (*p2p.Ping).Read
func vc_Ping_Read(p Ping, rest []byte) {
	r := vStream(vCat(specPing(&p), rest))
	var q Ping
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", vSame(q, p))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*p2p.Ping).Read
//@ alloc 65536
func vc_Ping_Read_any(p Ping) {
	r := vArbitrary(func() []byte { return specPing(&p) })
	var q Ping
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
}

//@ prop C02
//@ contract (*p2p.Pong).Type
func vc_Pong_Bytes(p Pong) {
	vEnsure("layout", vSame(p.Bytes(), specPing(&p.Ping)))
	vEnsure("type", p.Type() == 4)
}

//@ prop C02
//@ contract (*p2p.Pong).Type
func vc_Pong_Read(p Pong, rest []byte) {
	r := vStream(vCat(specPing(&p.Ping), rest))
	var q Pong
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", vSame(q, p))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*p2p.Pong).Type
//@ alloc 65536
func vc_Pong_Read_any(p Pong) {
	r := vArbitrary(func() []byte { return specPing(&p.Ping) })
	var q Pong
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
}

//@ prop C02
//@ contract (*p2p.GetPeerAddrs).Bytes
func vc_GetPeerAddrs_Bytes(p GetPeerAddrs) {
	vEnsure("layout", vSame(p.Bytes(), vU32(uint32(p.Capabilities))))
	vEnsure("type", p.Type() == 5)
}

//@ prop C02
//@ contract (*p2p.GetPeerAddrs).Read
func vc_GetPeerAddrs_Read(p GetPeerAddrs, rest []byte) {
	r := vStream(vCat(vU32(uint32(p.Capabilities)), rest))
	var q GetPeerAddrs
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", vSame(q, p))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*p2p.GetPeerAddrs).Read
//@ alloc 65536
func vc_GetPeerAddrs_Read_any(p GetPeerAddrs) {
	r := vArbitrary(func() []byte { return vU32(uint32(p.Capabilities)) })
	var q GetPeerAddrs
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
}

func specPeerError(p *PeerError) []byte {
	return vCat(vU32(p.Code), vU64(uint64(len(p.Message))), vStr(p.Message))
}

//@ prop C02
//@ contract (*p2p.PeerError).Bytes
func vc_PeerError_Bytes(p PeerError) {
	vEnsure("layout", vSame(p.Bytes(), specPeerError(&p)))
	vEnsure("type", p.Type() == 0)
}

//@ prop C02 C07
//@ contract (*p2p.PeerError).Read
func vc_PeerError_Read(p PeerError, rest []byte) {
	r := vStream(vCat(specPeerError(&p), rest))
	var q PeerError
	err := q.Read(r)
	vEnsure("accepted within the limit", (err == nil) == (len(p.Message) <= 10000))
	if err == nil {
		vEnsure("same value", vSame(q, p))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*p2p.PeerError).Read
//@ alloc 65536
func vc_PeerError_Read_any(p PeerError) {
	r := vArbitrary(func() []byte { return specPeerError(&p) })
	var q PeerError
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("text limit", vImp(err == nil, len(q.Message) <= 10000))
}

//@ prop C02
//@ contract (*p2p.GetBlock).Bytes
//@ shape github.com/dblokhin/gringo/p2p.GetBlock.Hash 32
func vc_GetBlock_Bytes(p GetBlock) {
	vRequire(len(p.Hash) == 32)
	vEnsure("layout", vSame(p.Bytes(), []byte(p.Hash)))
	vEnsure("type", p.Type() == 10)
}

//@ prop C02
//@ contract (*p2p.GetBlock).Read
//@ shape github.com/dblokhin/gringo/p2p.GetBlock.Hash 32
func vc_GetBlock_Read(p GetBlock, rest []byte) {
	vRequire(len(p.Hash) == 32)
	r := vStream(vCat(p.Hash, rest))
	var q GetBlock
	err := q.Read(r)
	vEnsure("accepted", err == nil)
	vEnsure("same value", vSame(q, p))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06
//@ contract (*p2p.GetBlock).Read
//@ alloc 65536
func vc_GetBlock_Read_any(seed []byte) {
	r := vArbitrary(func() []byte { return seed })
	var q GetBlock
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("hash length", vImp(err == nil, len(q.Hash) == 32))
}

// ---------------------------------------------------------------------------
// Handshake messages

// addrOK: an address that can be sent.
func addrOK(a *net.TCPAddr) bool {
	return (len(a.IP) == 4 || len(a.IP) == 16) && a.Port >= 0 && a.Port <= 65535
}

// specAddr: family, address, port.
func specAddr(a *net.TCPAddr) []byte {
	if v4 := a.IP.To4(); v4 != nil {
		return vCat(vU8(0), v4, vU16(uint16(a.Port)))
	}
	return vCat(vU8(1), a.IP, vU16(uint16(a.Port)))
}

// sameAddr: the same address, whatever its representation.
func sameAddr(a, b *net.TCPAddr) bool {
	return a.IP.Equal(b.IP) && a.Port == b.Port
}

func specHand(h *hand) []byte {
	return vCat(vU32(h.Version), vU32(uint32(h.Capabilities)), vU64(h.Nonce), vU64(uint64(h.TotalDifficulty)),
		specAddr(h.SenderAddr), specAddr(h.ReceiverAddr), vU64(uint64(len(h.UserAgent))), vStr(h.UserAgent), h.Genesis)
}

func sameHand(a, b *hand) bool {
	return a.Version == b.Version && a.Capabilities == b.Capabilities && a.Nonce == b.Nonce &&
		a.TotalDifficulty == b.TotalDifficulty && a.UserAgent == b.UserAgent && vSame(a.Genesis, b.Genesis) &&
		sameAddr(a.SenderAddr, b.SenderAddr) && sameAddr(a.ReceiverAddr, b.ReceiverAddr)
}

//@ prop C02
//@ contract (*p2p.hand).Bytes
//@ shape github.com/dblokhin/gringo/p2p.hand.Genesis 32
func vc_hand_Bytes(h hand) {
	vRequire(addrOK(h.SenderAddr) && addrOK(h.ReceiverAddr) && len(h.Genesis) == 32)
	vEnsure("layout", vSame(h.Bytes(), specHand(&h)))
	vEnsure("type", h.Type() == 1)
}

//@ prop C02 C07
//@ contract (*p2p.hand).Read
//@ shape github.com/dblokhin/gringo/p2p.hand.Genesis 32
func vc_hand_Read(h hand, rest []byte) {
	vRequire(addrOK(h.SenderAddr) && addrOK(h.ReceiverAddr) && len(h.Genesis) == 32)
	r := vStream(vCat(specHand(&h), rest))
	var q hand
	err := q.Read(r)
	vEnsure("accepted within the limits", (err == nil) == (len(h.UserAgent) <= 10000 && h.Version == 1))
	if err == nil {
		vEnsure("same value", sameHand(&q, &h))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*p2p.hand).Read
//@ alloc 65536
func vc_hand_Read_any(h hand) {
	r := vArbitrary(func() []byte {
		vRequire(addrOK(h.SenderAddr) && addrOK(h.ReceiverAddr))
		return specHand(&h)
	})
	var q hand
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", vImp(err == nil, q.Version == 1 && len(q.UserAgent) <= 10000 && len(q.Genesis) == 32))
}

func specShake(h *shake) []byte {
	return vCat(vU32(h.Version), vU32(uint32(h.Capabilities)), vU64(uint64(h.TotalDifficulty)),
		vU64(uint64(len(h.UserAgent))), vStr(h.UserAgent), h.Genesis)
}

//@ prop C02
//@ contract (*p2p.shake).Bytes
//@ shape github.com/dblokhin/gringo/p2p.shake.Genesis 32
func vc_shake_Bytes(h shake) {
	vRequire(len(h.Genesis) == 32)
	vEnsure("layout", vSame(h.Bytes(), specShake(&h)))
	vEnsure("type", h.Type() == 2)
}

//@ prop C02 C07
//@ contract (*p2p.shake).Read
//@ shape github.com/dblokhin/gringo/p2p.shake.Genesis 32
func vc_shake_Read(h shake, rest []byte) {
	vRequire(len(h.Genesis) == 32)
	r := vStream(vCat(specShake(&h), rest))
	var q shake
	err := q.Read(r)
	vEnsure("accepted within the limits", (err == nil) == (len(h.UserAgent) <= 10000 && h.Version == 1))
	if err == nil {
		vEnsure("same value", vSame(q, h))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*p2p.shake).Read
//@ alloc 65536
func vc_shake_Read_any(h shake) {
	r := vArbitrary(func() []byte { return specShake(&h) })
	var q shake
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("limits", vImp(err == nil, q.Version == 1 && len(q.UserAgent) <= 10000 && len(q.Genesis) == 32))
}

// ---------------------------------------------------------------------------
// Peer addresses

//@ prop C03
//@ contract p2p.serializeTCPAddr
func vc_serializeTCPAddr(a net.TCPAddr) {
	vRequire(addrOK(&a))
	w := &vSink{}
	serializeTCPAddr(w, &a)
	vEnsure("layout", vSame(w.data, specAddr(&a)))
}

//@ prop C03
//@ contract p2p.deserializeTCPAddr
func vc_deserializeTCPAddr(a net.TCPAddr, rest []byte) {
	vRequire(addrOK(&a))
	r := vStream(vCat(specAddr(&a), rest))
	b, err := deserializeTCPAddr(r)
	vEnsure("accepted", err == nil)
	vEnsure("same address", sameAddr(b, &a))
	vEnsure("exactly consumed", vSame(r.Rest(), rest))
}

//@ prop C06 C07
//@ contract p2p.deserializeTCPAddr
//@ alloc 65536
func vc_deserializeTCPAddr_any(a net.TCPAddr) {
	r := vArbitrary(func() []byte {
		vRequire(addrOK(&a))
		return specAddr(&a)
	})
	b, err := deserializeTCPAddr(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("a usable address", err != nil || b != nil && (len(b.IP) == 4 || len(b.IP) == 16) && b.Port >= 0 && b.Port <= 65535)
	vEnsure("family and length agree", err != nil || r.Used() == 7 && len(b.IP) == 4 || r.Used() == 19 && len(b.IP) == 16)
}

//@ prop C07
//@ contract p2p.deserializeTCPAddr
func vc_deserializeTCPAddr_family(f uint8, rest []byte) {
	vRequire(f > 1)
	r := vStream(vCat(vU8(f), rest))
	_, err := deserializeTCPAddr(r)
	vEnsure("unknown family refused", err != nil)
}

func specPeerAddrs(p *PeerAddrs) []byte {
	return vCat(vU32(uint32(len(p.peers))), vRep(len(p.peers), func(k int) []byte { return specAddr(p.peers[k]) }))
}

func addrsOK(p *PeerAddrs) bool {
	return vForall(len(p.peers), func(k int) bool { return addrOK(p.peers[k]) })
}

//@ prop C03
//@ contract (*p2p.PeerAddrs).Bytes
func vc_PeerAddrs_Bytes(p PeerAddrs) {
	vRequire(len(p.peers) <= 256 && addrsOK(&p))
	vEnsure("layout", vSame(p.Bytes(), specPeerAddrs(&p)))
	vEnsure("type", p.Type() == 6)
}

//@ prop C03 C07
//@ contract (*p2p.PeerAddrs).Read
func vc_PeerAddrs_Read(p PeerAddrs, rest []byte) {
	vRequire(addrsOK(&p))
	r := vStream(vCat(specPeerAddrs(&p), rest))
	var q PeerAddrs
	err := q.Read(r)
	vEnsure("accepted within the limit", (err == nil) == (len(p.peers) <= 256))
	if err == nil {
		vEnsure("same count", len(q.peers) == len(p.peers))
		vEnsure("same addresses in order", vForall(len(p.peers), func(k int) bool { return sameAddr(q.peers[k], p.peers[k]) }))
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C06 C07
//@ contract (*p2p.PeerAddrs).Read
//@ alloc 65536
func vc_PeerAddrs_Read_any(p PeerAddrs) {
	r := vArbitrary(func() []byte {
		vRequire(addrsOK(&p))
		return specPeerAddrs(&p)
	})
	var q PeerAddrs
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("address limit", vImp(err == nil, len(q.peers) <= 256))
}

var _ = consensus.MaxPeerAddrs
