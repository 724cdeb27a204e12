package p2p

import (
	"io"
)

// Message framing.

// vMsg: a message with any type and body, whose decoder reads any number of bytes.
type vMsg struct {
	typ  uint8
	body []byte
	want uint64
	got  []byte
}

func (m *vMsg) Bytes() []byte { return m.body }
func (m *vMsg) Type() uint8   { return m.typ }
func (m *vMsg) Read(r io.Reader) error {
	m.got = make([]byte, m.want)
	_, err := io.ReadFull(r, m.got)
	return err
}

func specFrame(typ uint8, n uint64, body []byte) []byte {
	return vCat(vU8(0x54), vU8(0x34), vU8(typ), vU64(n), body)
}

//@ prop C01
//@ contract p2p.WriteMessage
func vc_WriteMessage(m vMsg) {
	w := &vSink{}
	n, err := WriteMessage(w, &m)
	vEnsure("no error", err == nil)
	vEnsure("frame", vSame(w.data, specFrame(m.typ, uint64(len(m.body)), m.body)))
	vEnsure("count", n == 11+uint64(len(m.body)))
}

//@ prop C01
//@ contract p2p.WriteMessage
func vc_WriteMessage_fails(m vMsg) {
	w := &vSink{fail: true}
	_, err := WriteMessage(w, &m)
	vEnsure("a failed write is reported", err != nil)
}

//@ prop C01
//@ contract (*p2p.Header).Bytes
func vc_Header_Bytes(h Header) {
	vEnsure("layout", vSame(h.Bytes(), vCat(h.magic[:], vU8(h.Type), vU64(h.Len))))
}

//@ prop C01
//@ contract (*p2p.Header).Write
func vc_Header_Write(h Header) {
	w := &vSink{}
	vEnsure("no error", h.Write(w) == nil)
	vEnsure("layout", vSame(w.data, vCat(h.magic[:], vU8(h.Type), vU64(h.Len))))
}

//@ prop C01
//@ contract (*p2p.Header).Read
func vc_Header_Read(h Header, rest []byte) {
	r := vStream(vCat(h.magic[:], vU8(h.Type), vU64(h.Len), rest))
	var q Header
	err := q.Read(r)
	vEnsure("accepted with the right magic only", (err == nil) == (h.magic[0] == 0x54 && h.magic[1] == 0x34))
	if err == nil {
		vEnsure("same value", q.Type == h.Type && q.Len == h.Len)
		vEnsure("exactly consumed", vSame(r.Rest(), rest))
	}
}

//@ prop C01 C06
//@ contract (*p2p.Header).Read
//@ alloc 65536
func vc_Header_Read_any(h Header) {
	r := vArbitrary(func() []byte { return specFrame(h.Type, h.Len, nil) })
	var q Header
	err := q.Read(r)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
	vEnsure("at most 11 bytes", r.Used() <= 11)
}

//@ prop C01 C07
//@ contract p2p.ReadMessage
func vc_ReadMessage(m vMsg, magic [2]byte, typ uint8, n uint64, body, rest []byte) {
	m.want = uint64(len(body))
	r := vStream(vCat(magic[:], vU8(typ), vU64(n), body, rest))
	cnt, err := ReadMessage(r, &m)
	good := magic[0] == 0x54 && magic[1] == 0x34 && typ == m.typ && n <= 20000000
	vEnsure("accepted when the frame is right", (err == nil) == (good && m.want <= n))
	used := 11 + uint64(len(body)) + uint64(len(rest)) - r.Left()
	vEnsure("nothing beyond the frame", used <= 11 || good && used-11 <= n)
	if err == nil {
		vEnsure("the body from its start", vSame(m.got, body))
		vEnsure("the rest is left", vSame(r.Rest(), rest))
		vEnsure("count", cnt == 11+n)
	}
}

//@ prop C01 C07
//@ contract p2p.ReadMessage
func vc_ReadMessage_short(m vMsg, n uint64, body []byte) {
	vRequire(m.want > uint64(len(body)) && m.want <= 100000)
	r := vStream(specFrame(m.typ, n, body))
	_, err := ReadMessage(r, &m)
	vEnsure("a truncated body is an error", err != nil)
}

//@ prop C01 C06
//@ contract p2p.ReadMessage
func vc_ReadMessage_any(m vMsg, n uint64, data []byte) {
	vRequire(m.want <= 100000)
	r := vArbitrary(func() []byte { return specFrame(m.typ, n, data) })
	_, err := ReadMessage(r, &m)
	vEnsure("truncated input is an error", vImp(r.Short(), err != nil))
}
