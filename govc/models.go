package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Models: the assumed contracts of functions outside the repository. Each one
// used is listed in the evidence.

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, val: v}} }

var nilErr = IfaceV{}

// model executes a call of a function without a body here.
func (e *Eng) model(st *State, fn *ssa.Function, args []Value, site ssa.Instruction) []Outcome {
	full := fn.String()
	if strings.HasSuffix(full, ".init") && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
		return one(st, nil)
	}
	if e.quiet == 0 {
		e.assumed[full] = true
	}
	tt := e.tt
	short := full
	if fn.Signature.Recv() != nil && fn.Pkg != nil && !strings.Contains(full, "(") {
		short = full
	}
	switch {
	case strings.HasPrefix(full, "github.com/sirupsen/logrus."):
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
			return []Outcome{{st: st, panic: "exits the process (logrus." + n + ")", pos: fn.Pos()}}
		}
		return one(st, nil)
	}
	if fn.Name() == "String" && fn.Signature.Params().Len() == 0 && full != "(*net.TCPAddr).String" && full != "(net.IP).String" {
		return one(st, e.chunk(e.freshU(st, "str"), e.symLen(e.freshName(st, "strl"), e.freshIdx(st))))
	}
	switch short {
	// --- errors and text
	case "errors.New", "fmt.Errorf":
		return one(st, e.newErr(st, full))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "encoding/hex.EncodeToString":
		return one(st, e.chunk(e.freshU(st, "str"), e.symLen(e.freshName(st, "strl"), e.freshIdx(st))))
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return one(st, TupleV{tt.I(0), nilErr})
	// --- bytes
	case "bytes.Equal":
		return one(st, e.ropeEq(st, e.bytesOf(st, args[0]), e.bytesOf(st, args[1])))
	case "bytes.Compare":
		a, b := e.bytesOf(st, args[0]), e.bytesOf(st, args[1])
		eq := e.ropeEq(st, a, b)
		lt := e.lexLess(st, a, b)
		return one(st, tt.Ite(eq, tt.I(0), tt.Ite(lt, tt.I(-1), tt.I(1))))
	case "bytes.Repeat":
		b := e.bytesOf(st, args[0])
		n, ok := args[1].(*Term).CU()
		if !ok || n > 4096 {
			fail("bytes.Repeat of unknown count")
		}
		r := &Rope{}
		for i := uint64(0); i < n; i++ {
			r = e.cat(r, b)
		}
		return one(st, e.newBytes(st, e.compactR(r)))
	case "bytes.NewReader", "strings.NewReader":
		return one(st, Ptr{Obj: e.alloc(st, &StreamC{R: e.bytesOf(st, args[0]), Short: tt.False})})
	case "bytes.NewBuffer", "bytes.NewBufferString":
		return one(st, Ptr{Obj: e.alloc(st, e.bytesOf(st, args[0]))})
	case "(*bytes.Buffer).Bytes":
		return one(st, e.newBytes(st, e.load(st, args[0].(Ptr)).(*Rope)))
	case "(*bytes.Buffer).String":
		return one(st, e.load(st, args[0].(Ptr)).(*Rope))
	case "(*bytes.Buffer).Len":
		return one(st, e.ropeLen(e.load(st, args[0].(Ptr)).(*Rope)))
	case "(*bytes.Buffer).Reset":
		e.store(st, args[0].(Ptr), &Rope{})
		return one(st, nil)
	case "(*bytes.Buffer).Grow":
		return one(st, nil)
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		r := e.bytesOf(st, args[1])
		e.appendTo(st, args[0].(Ptr), r)
		return one(st, TupleV{e.ropeLen(r), nilErr})
	case "(*bytes.Buffer).WriteByte":
		e.appendTo(st, args[0].(Ptr), e.W(args[1].(*Term)))
		return one(st, nilErr)
	// --- binary
	case "encoding/binary.Write":
		r := e.encode(st, args[2].(IfaceV), e.little(args[1]))
		var out []Outcome
		for _, o := range e.writeTo(st, args[0].(IfaceV), r, site) {
			out = append(out, o)
		}
		return out
	case "encoding/binary.Read":
		return e.binRead(st, args[0].(IfaceV), e.little(args[1]), args[2].(IfaceV), site)
	case "encoding/binary.Size":
		return one(st, e.ropeLen(e.encode(st, args[0].(IfaceV), false)))
	case "io.ReadFull":
		return e.readFull(st, args[0].(IfaceV), args[1].(SliceV), site)
	case "io.ReadAtLeast":
		b := args[1].(SliceV)
		if e.eqLen(st, b.Len, args[2].(*Term)) {
			return e.readFull(st, args[0].(IfaceV), b, site)
		}
		fail("io.ReadAtLeast")
	case "io.LimitReader":
		t := fn.Signature.Results().At(0).Type()
		_ = t
		lr := e.namedIn(fn.Pkg, "LimitedReader")
		s := &StructV{T: lr, F: []Value{args[0], args[1]}}
		return one(st, IfaceV{types.NewPointer(lr), Ptr{Obj: e.alloc(st, s)}})
	case "io.Copy":
		fail("io.Copy")
	case "bufio.NewReader", "bufio.NewReaderSize":
		return one(st, Ptr{Obj: e.alloc(st, &RdrV{Kind: "bufr", Under: args[0], N: tt.I(0), Buf: &Rope{}})})
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return one(st, Ptr{Obj: e.alloc(st, &RdrV{Kind: "bufw", Under: args[0], N: tt.I(0), Buf: &Rope{}})})
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		p := args[0].(Ptr)
		w := *e.load(st, p).(*RdrV)
		r := e.bytesOf(st, args[1])
		w.Buf = e.cat(w.Buf, r)
		e.store(st, p, &w)
		return one(st, TupleV{e.ropeLen(r), nilErr})
	case "(*bufio.Writer).Flush":
		p := args[0].(Ptr)
		w := *e.load(st, p).(*RdrV)
		r := w.Buf
		w.Buf = &Rope{}
		e.store(st, p, &w)
		if len(r.P) == 0 {
			return one(st, nilErr)
		}
		return e.writeTo(st, w.Under.(IfaceV), r, site)
	// --- fixed byte orders
	case "(encoding/binary.littleEndian).Uint64", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint16",
		"(encoding/binary.bigEndian).Uint64", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16":
		n := 8
		if strings.HasSuffix(full, "32") {
			n = 4
		} else if strings.HasSuffix(full, "16") {
			n = 2
		}
		b := args[1].(SliceV)
		p := e.need(st, tt.Ule(tt.I(int64(n)), b.Len), "short")
		var out []Outcome
		if p != nil {
			out = append(out, Outcome{st: p, panic: "index out of range in " + full})
		}
		r := e.bytesOf(st, b)
		a, _, ok := e.split(st, r, tt.I(int64(n)))
		if !ok {
			fail("%s of %s", full, e.ropeStr(r))
		}
		w := e.word(a)
		if strings.Contains(full, "little") {
			w = e.bswap(w)
		}
		return append(out, Outcome{st: st, val: w})
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16",
		"(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16":
		w := args[2].(*Term)
		if strings.Contains(full, "little") {
			w = e.bswap(w)
		}
		b := args[1].(SliceV)
		p := e.need(st, tt.Ule(tt.I(int64(w.S.W/8)), b.Len), "short")
		var out []Outcome
		if p != nil {
			out = append(out, Outcome{st: p, panic: "index out of range in " + full})
		}
		e.writeSlice(st, b, e.W(w))
		return append(out, Outcome{st: st, val: nil})
	case "math/bits.RotateLeft64", "math/bits.RotateLeft32", "math/bits.RotateLeft16", "math/bits.RotateLeft8":
		x := args[0].(*Term)
		k, ok := args[1].(*Term).CU()
		if !ok {
			fail("%s by an unknown amount", full)
		}
		k &= uint64(x.S.W - 1)
		if k == 0 {
			return one(st, x)
		}
		return one(st, tt.Concat(tt.Extract(x.S.W-1-int(k), 0, x), tt.Extract(x.S.W-1, x.S.W-int(k), x)))
	// --- hashes
	case "golang.org/x/crypto/blake2b.Sum256":
		return one(st, e.W(tt.App("blake2b256", SBV(256), e.seqU(st, e.bytesOf(st, args[0])))))
	case "crypto/sha256.Sum256":
		return one(st, e.W(tt.App("sha256", SBV(256), e.seqU(st, e.bytesOf(st, args[0])))))
	case "crypto/sha256.New":
		t := types.NewPointer(e.prog.errType.(*types.Pointer).Elem())
		return one(st, IfaceV{t, Ptr{Obj: e.alloc(st, &RdrV{Kind: "sha", Buf: &Rope{}, N: tt.I(0)})}})
	case "github.com/dchest/siphash.Hash":
		return one(st, tt.App("siphash24", S64, args[0].(*Term), args[1].(*Term), e.seqU(st, e.bytesOf(st, args[2]))))
	// --- locks
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return e.lock(st, args[0].(Ptr), 1<<32, func(c *Term) *Term { return tt.Eq(c, tt.I(0)) }, "deadlock: Lock of a lock that is held")
	case "(*sync.RWMutex).RLock":
		return e.lock(st, args[0].(Ptr), 1, func(c *Term) *Term { return tt.Ult(c, tt.BV(64, 1<<32)) }, "deadlock: RLock of a lock that is held")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return e.lock(st, args[0].(Ptr), -(1 << 32), func(c *Term) *Term { return tt.Eq(c, tt.BV(64, 1<<32)) }, "unlock of unlocked mutex")
	case "(*sync.RWMutex).RUnlock":
		return e.lock(st, args[0].(Ptr), -1, func(c *Term) *Term {
			return tt.And(tt.Ult(tt.I(0), c), tt.Ult(c, tt.BV(64, 1<<32)))
		}, "RUnlock of unlocked mutex")
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return one(st, nil)
	case "sync/atomic.AddUint64", "sync/atomic.AddUint32", "sync/atomic.AddInt32", "sync/atomic.AddInt64":
		p := args[0].(Ptr)
		v := tt.Add(e.load(st, p).(*Term), args[1].(*Term))
		e.store(st, p, v)
		return one(st, v)
	case "sync/atomic.LoadInt32", "sync/atomic.LoadUint32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64":
		return one(st, e.load(st, args[0].(Ptr)))
	case "sync/atomic.StoreInt32", "sync/atomic.StoreUint32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint64":
		e.store(st, args[0].(Ptr), args[1])
		return one(st, nil)
	case "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapUint32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapUint64":
		p := args[0].(Ptr)
		old := e.load(st, p).(*Term)
		c := tt.Eq(old, args[1].(*Term))
		e.store(st, p, tt.Ite(c, args[2].(*Term), old))
		return one(st, c)
	// --- time
	case "time.Unix":
		t := fn.Signature.Results().At(0).Type()
		ns := args[1].(*Term)
		if c, ok := ns.CU(); ok && c < 1000000000 {
			return one(st, &StructV{t, []Value{args[0], ns}})
		}
		if st.prove(tt.Ult(ns, tt.I(1000000000))) {
			return one(st, &StructV{t, []Value{args[0], ns}})
		}
		fail("time.Unix with nanoseconds out of range")
	case "time.Now":
		t := fn.Signature.Results().At(0).Type()
		sec := tt.Zext(64, e.freshBV(st, "now.sec", 38))
		ns := tt.Zext(64, e.freshBV(st, "now.nsec", 29))
		st.assume(tt.Ult(ns, tt.I(1000000000)))
		if st.now != nil {
			// the clock does not run backwards
			st.assume(tt.Or(tt.Ult(st.now[0], sec), tt.And(tt.Eq(st.now[0], sec), tt.Ule(st.now[1], ns))))
		}
		st.now = []*Term{sec, ns}
		return one(st, &StructV{t, []Value{sec, ns}})
	case "time.Sleep":
		return one(st, nil)
	case "time.Date":
		var v [7]int
		for i := range v {
			c, ok := args[i].(*Term).CU()
			if !ok {
				fail("time.Date of unknown values")
			}
			v[i] = int(int64(c))
		}
		d := time.Date(v[0], time.Month(v[1]), v[2], v[3], v[4], v[5], v[6], time.UTC)
		return one(st, &StructV{fn.Signature.Results().At(0).Type(), []Value{tt.I(d.Unix()), tt.I(int64(d.Nanosecond()))}})
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round":
		return one(st, args[0])
	case "(time.Time).Unix":
		return one(st, args[0].(*StructV).F[0])
	case "(time.Time).Nanosecond":
		return one(st, args[0].(*StructV).F[1])
	case "(time.Time).UnixNano":
		s := args[0].(*StructV)
		return one(st, tt.Add(tt.Mul(s.F[0].(*Term), tt.I(1000000000)), s.F[1].(*Term)))
	case "(time.Time).After":
		return one(st, e.timeBefore(args[1], args[0]))
	case "(time.Time).Before":
		return one(st, e.timeBefore(args[0], args[1]))
	case "(time.Time).Equal":
		a, b := args[0].(*StructV), args[1].(*StructV)
		return one(st, tt.And(tt.Eq(a.F[0].(*Term), b.F[0].(*Term)), tt.Eq(a.F[1].(*Term), b.F[1].(*Term))))
	case "(time.Time).IsZero":
		a := args[0].(*StructV)
		z := e.zero(a.T).(*StructV)
		return one(st, tt.And(tt.Eq(a.F[0].(*Term), z.F[0].(*Term)), tt.Eq(a.F[1].(*Term), z.F[1].(*Term))))
	case "(time.Time).Sub":
		a, b := args[0].(*StructV), args[1].(*StructV)
		if a.F[1].(*Term) == b.F[1].(*Term) {
			d := tt.Sub(a.F[0].(*Term), b.F[0].(*Term))
			lim := tt.BV(64, 1<<33)
			lo, hi := tt.Neg(tt.BV(64, 1<<32)), tt.BV(64, 1<<32)
			in := func(x Value) bool { return st.prove(tt.And(tt.Sle(lo, x.(*Term)), tt.Sle(x.(*Term), hi))) }
			if in(a.F[0]) && in(b.F[0]) || st.prove(tt.And(tt.Sle(tt.Neg(lim), d), tt.Sle(d, lim))) {
				return one(st, tt.Mul(tt.BV(64, 1000000000), d))
			}
		}
		x := func(v Value) *Term { return tt.Sext(104, v.(*Term)) }
		g := tt.BV(104, 1000000000)
		d := tt.Add(tt.Mul(tt.Sub(x(a.F[0]), x(b.F[0])), g), tt.Sub(x(a.F[1]), x(b.F[1])))
		mx, mn := tt.BV(64, 1<<63-1), tt.BV(64, 1<<63)
		return one(st, tt.Ite(tt.Slt(tt.Sext(104, mx), d), mx, tt.Ite(tt.Slt(d, tt.Sext(104, mn)), mn, tt.Extract(63, 0, d))))
	case "(time.Time).Add":
		s := args[0].(*StructV)
		d, ok := args[1].(*Term).CU()
		if ok {
			q, r := int64(d)/1000000000, int64(d)%1000000000
			if r < 0 {
				q, r = q-1, r+1000000000
			}
			if r == 0 {
				return one(st, &StructV{s.T, []Value{tt.Add(s.F[0].(*Term), tt.I(q)), s.F[1]}})
			}
		}
		// whole seconds
		dt := args[1].(*Term)
		if dt.Op == OMul {
			for i, a := range dt.Args {
				if c, ok := a.CU(); ok && c%1000000000 == 0 {
					rest := tt.BV(64, c/1000000000)
					for j, b := range dt.Args {
						if j != i {
							rest = tt.Mul(rest, b)
						}
					}
					if st.prove(tt.Eq(tt.Sext(128, dt), tt.Mul(tt.Sext(128, rest), tt.BV(128, 1000000000)))) {
						return one(st, &StructV{s.T, []Value{tt.Add(s.F[0].(*Term), rest), s.F[1]}})
					}
				}
			}
		}
		fail("time.Add of an unknown duration")
	case "(time.Duration).Seconds":
		return one(st, tt.App("float.seconds", SU, args[0].(*Term)))
	case "(time.Duration).Nanoseconds":
		return one(st, args[0])
	// --- randomness
	case "math/rand.Seed":
		return one(st, nil)
	case "math/rand.Uint64":
		return one(st, e.freshBV(st, "rand", 64))
	case "math/rand.Uint32":
		return one(st, e.freshBV(st, "rand", 32))
	case "math/rand.Intn", "math/rand.Int63n":
		v := e.freshBV(st, "rand", 64)
		n := args[0].(*Term)
		p := e.need(st, tt.Slt(tt.I(0), n), "Intn")
		st.assume(tt.Ult(v, n))
		if p != nil {
			return []Outcome{{st: p, panic: "invalid argument to Intn"}, {st: st, val: v}}
		}
		return one(st, v)
	case "crypto/rand.Read":
		b := args[0].(SliceV)
		n, ok := b.Len.CU()
		if !ok {
			fail("rand.Read of unknown length")
		}
		e.writeSlice(st, b, e.W(e.freshBV(st, "rnd", int(8*n))))
		// the source of randomness does not fail
		return []Outcome{{st: st, val: TupleV{b.Len, nilErr}}}
	// --- network
	case "(net.IP).To4":
		return e.ipTo4(st, args[0].(SliceV))
	case "(net.IP).To16":
		return e.ipTo16(st, args[0].(SliceV))
	case "(net.IP).IsMulticast":
		return e.ipMulticast(st, args[0].(SliceV))
	case "(net.IP).Equal":
		r := []Outcome{}
		for _, a := range e.ipTo16(st, args[0].(SliceV)) {
			for _, b := range e.ipTo16(a.st, args[1].(SliceV)) {
				r = append(r, Outcome{st: b.st, val: e.ropeEq(b.st, e.bytesOf(b.st, a.val), e.bytesOf(b.st, b.val))})
			}
		}
		return r
	case "net.ResolveTCPAddr":
		return e.resolve(st, fn, args)
	case "(*net.TCPAddr).String":
		p := args[0].(Ptr)
		if p.Obj == 0 {
			return one(st, e.strRope("<nil>"))
		}
		a := e.load(st, p).(*StructV)
		ip := e.seqU(st, e.bytesOf(st, a.F[0]))
		z := e.seqU(st, a.F[2].(*Rope))
		return one(st, e.chunk(tt.App("addrString", SU, ip, a.F[1].(*Term), z), tt.Zext(64, tt.App("addrStringLen", SBV(7), ip, a.F[1].(*Term), z))))
	case "net.IPv4":
		bs := e.W(tt.BVBig(96, new(big.Int).SetUint64(0xffff)))
		for _, a := range args {
			bs = e.cat(bs, e.W(a.(*Term)))
		}
		return one(st, e.newBytes(st, e.compactR(bs)))
	// --- sorting
	case "sort.Sort", "sort.Stable":
		return e.sortIface(st, args[0].(IfaceV), site)
	case "sort.Slice", "sort.SliceStable":
		return e.sortSlice(st, args[0].(IfaceV), args[1].(FuncV), site)
	case "sort.IsSorted":
		iv := args[0].(IfaceV)
		sl, ok := iv.V.(SliceV)
		if !ok {
			fail("sort.IsSorted of %T", iv.V)
		}
		return one(st, e.sortedBy(st, sl, e.lessMethod(iv, site)))
	case "sort.SliceIsSorted":
		iv := args[0].(IfaceV)
		f := args[1].(FuncV)
		return one(st, e.sortedBy(st, iv.V.(SliceV), func(s *State, i, j *Term) []Outcome {
			return e.callStatic(s, f.Fn, []Value{i, j}, f.Bind, site)
		}))
	}
	if r, ok := e.modelBig(st, fn, full, args); ok {
		return r
	}
	fail("no contract for %s", full)
	return nil
}

func (e *Eng) namedIn(p *ssa.Package, name string) types.Type {
	return p.Pkg.Scope().Lookup(name).Type()
}

func (e *Eng) little(v Value) bool {
	iv := v.(IfaceV)
	if iv.T == nil {
		fail("no byte order")
	}
	return strings.Contains(iv.T.String(), "little")
}

func (e *Eng) appendTo(st *State, p Ptr, r *Rope) {
	old, ok := e.load(st, p).(*Rope)
	if !ok {
		fail("buffer holds %T", e.load(st, p))
	}
	e.store(st, p, e.cat(old, r))
}

// word is the whole sequence as one bit vector.
func (e *Eng) word(r *Rope) *Term {
	r = e.compactR(r)
	var ts []*Term
	for _, p := range r.P {
		switch p.K {
		case 'W':
			ts = append(ts, p.T)
		case 'C':
			c, ok := p.N.CU()
			if !ok || c > 4096 {
				fail("word of %s", e.ropeStr(r))
			}
			if c > 0 {
				ts = append(ts, e.chunkWord(p.T, int(c)))
			}
		default:
			lo, ok1 := p.Lo.CU()
			hi, ok2 := p.Hi.CU()
			if !ok1 || !ok2 || hi-lo > 4096 {
				fail("word of %s", e.ropeStr(r))
			}
			for i := lo; i < hi; i++ {
				b := e.subRope(p.Body, e.newSub(map[*Term]*Term{p.BV: e.tt.BV(64, i)}))
				if len(b.P) > 0 {
					ts = append(ts, e.word(b))
				}
			}
		}
	}
	if len(ts) == 0 {
		fail("empty word")
	}
	return e.tt.Concat(ts...)
}

func (e *Eng) bswap(w *Term) *Term {
	n := w.S.W / 8
	var ts []*Term
	for i := 0; i < n; i++ {
		ts = append(ts, e.tt.Extract(8*i+7, 8*i, w))
	}
	return e.tt.Concat(ts...)
}

// writeSlice overwrites the head of a byte slice.
func (e *Eng) writeSlice(st *State, b SliceV, r *Rope) {
	if len(r.P) == 0 {
		return
	}
	old, ok := e.load(st, b.Base).(*Rope)
	if !ok {
		fail("bytes stored in %T", e.load(st, b.Base))
	}
	e.store(st, b.Base, e.setBytes(st, old, b.Off, r))
}

// encode is the image of a value under binary.Write.
func (e *Eng) encode(st *State, iv IfaceV, little bool) *Rope {
	if iv.T == nil {
		fail("binary.Write of nil")
	}
	v := iv.V
	t := iv.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v = e.load(st, v.(Ptr))
		t = p.Elem()
	}
	return e.encodeV(st, v, t, little)
}

func (e *Eng) encodeV(st *State, v Value, t types.Type, little bool) *Rope {
	tt := e.tt
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return e.W(tt.Ite(v.(*Term), tt.BV(8, 1), tt.BV(8, 0)))
		}
		if u.Kind() == types.Int || u.Kind() == types.Uint || u.Info()&types.IsString != 0 {
			fail("binary.Write of %s", t)
		}
		w := v.(*Term)
		if little {
			w = e.bswap(w)
		}
		return e.W(w)
	case *types.Slice:
		if isByte(u.Elem()) {
			return e.bytesOf(st, v)
		}
		s := v.(SliceV)
		n, ok := s.Len.CU()
		if ok && n <= 128 {
			r := &Rope{}
			for i := uint64(0); i < n; i++ {
				r = e.cat(r, e.encodeV(st, e.elemAt(st, s, tt.BV(64, i)), u.Elem(), little))
			}
			return e.compactR(r)
		}
		k := e.ropeVar(3)
		b := e.encodeV(st, e.elemAt(st, s, k), u.Elem(), little)
		return &Rope{[]Piece{{K: 'R', Lo: tt.I(0), Hi: s.Len, BV: k, Body: b}}}
	case *types.Array:
		if isByte(u.Elem()) {
			return v.(*Rope)
		}
		r := &Rope{}
		for _, x := range v.(*ArrV).E {
			r = e.cat(r, e.encodeV(st, x, u.Elem(), little))
		}
		return e.compactR(r)
	case *types.Struct:
		r := &Rope{}
		for i, x := range v.(*StructV).F {
			r = e.cat(r, e.encodeV(st, x, u.Field(i).Type(), little))
		}
		return e.compactR(r)
	}
	fail("binary.Write of %s", t)
	return nil
}

func (e *Eng) fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		if u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return -1
		}
		if w := basicWidth(u); w > 0 {
			return w / 8
		}
	case *types.Array:
		n := e.fixedSize(u.Elem())
		if n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := e.fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (e *Eng) decodeV(st *State, r *Rope, t types.Type, little bool) Value {
	tt := e.tt
	take := func(n int) *Rope {
		a, b, ok := e.split(st, r, tt.I(int64(n)))
		if !ok {
			fail("decode")
		}
		r = b
		return a
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := e.word(r)
		if u.Info()&types.IsBoolean != 0 {
			return tt.Not(tt.Eq(w, tt.BV(8, 0)))
		}
		if little {
			w = e.bswap(w)
		}
		return w
	case *types.Array:
		if isByte(u.Elem()) {
			return e.compactR(r)
		}
		a := &ArrV{}
		n := e.fixedSize(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, e.decodeV(st, take(n), u.Elem(), little))
		}
		return a
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			s.F = append(s.F, e.decodeV(st, take(e.fixedSize(ft)), ft, little))
		}
		return s
	}
	fail("decode of %s", t)
	return nil
}

func (e *Eng) binRead(st *State, rd IfaceV, little bool, dst IfaceV, site ssa.Instruction) []Outcome {
	tt := e.tt
	if dst.T == nil {
		fail("binary.Read into nil")
	}
	switch u := dst.T.Underlying().(type) {
	case *types.Pointer:
		n := e.fixedSize(u.Elem())
		if n < 0 {
			return one(st, e.newErr(st, "binary.Read: invalid type"))
		}
		var out []Outcome
		for _, o := range e.readN(st, rd, tt.I(int64(n)), site) {
			if o.err == 0 {
				p := dst.V.(Ptr)
				if p.Obj == 0 {
					out = append(out, Outcome{st: o.st, panic: "nil pointer in binary.Read"})
					continue
				}
				e.store(o.st, p, e.decodeV(o.st, o.data, u.Elem(), little))
			}
			out = append(out, Outcome{st: o.st, val: e.readErr(o)})
		}
		return out
	case *types.Slice:
		s := dst.V.(SliceV)
		if isByte(u.Elem()) {
			var out []Outcome
			for _, o := range e.readN(st, rd, s.Len, site) {
				if o.err == 0 {
					e.writeSlice(o.st, s, o.data)
				}
				out = append(out, Outcome{st: o.st, val: e.readErr(o)})
			}
			return out
		}
		n := e.fixedSize(u.Elem())
		c, ok := s.Len.CU()
		if n > 0 && ok && c <= 128 {
			var out []Outcome
			for _, o := range e.readN(st, rd, tt.BV(64, c*uint64(n)), site) {
				if o.err == 0 {
					r := o.data
					for i := uint64(0); i < c; i++ {
						a, b, ok := e.split(o.st, r, tt.I(int64(n)))
						if !ok {
							fail("binary.Read of a slice")
						}
						r = b
						e.store(o.st, s.Base.at(PE{Idx: tt.Add(s.Off, tt.BV(64, i))}), e.decodeV(o.st, a, u.Elem(), little))
					}
				}
				out = append(out, Outcome{st: o.st, val: e.readErr(o)})
			}
			return out
		}
	}
	fail("binary.Read into %s", dst.T)
	return nil
}

func (e *Eng) readErr(o readOut) Value {
	switch o.err {
	case 0:
		return nilErr
	case 1:
		return e.namedErr(o.st, "io.EOF")
	}
	return e.namedErr(o.st, "io.ErrUnexpectedEOF")
}

func (e *Eng) readFull(st *State, rd IfaceV, b SliceV, site ssa.Instruction) []Outcome {
	var out []Outcome
	for _, o := range e.readN(st, rd, b.Len, site) {
		n := b.Len
		if o.err == 0 {
			e.writeSlice(o.st, b, o.data)
		} else {
			n = e.tt.I(0)
			if o.err == 2 {
				n = e.tt.Zext(64, e.freshBV(o.st, "rn", 30))
			}
			e.scramble(o.st, b)
		}
		out = append(out, Outcome{st: o.st, val: TupleV{n, e.readErr(o)}})
	}
	return out
}

// scramble: the contents of a buffer after a failed read are unspecified.
func (e *Eng) scramble(st *State, b SliceV) {
	if b.Base.Obj == 0 {
		return
	}
	if n, ok := b.Len.CU(); ok {
		if n > 0 && n <= 1024 {
			e.writeSlice(st, b, e.W(e.freshBV(st, "scr", int(8*n))))
		}
		return
	}
	if isZero(b.Off) {
		old := e.load(st, b.Base).(*Rope)
		if e.eqLen(st, e.ropeLen(old), b.Len) {
			e.store(st, b.Base, e.chunk(e.freshU(st, "scr"), b.Len))
			return
		}
	}
	fail("buffer of unknown size after a failed read")
}

type readOut struct {
	st   *State
	data *Rope
	err  int // 0 read, 1 nothing there, 2 part of it there
}

// readN reads exactly n bytes.
func (e *Eng) readN(st *State, rd IfaceV, n *Term, site ssa.Instruction) []readOut {
	tt := e.tt
	if isZero(n) {
		return []readOut{{st: st, data: &Rope{}}}
	}
	if rd.T == nil {
		fail("read from a nil reader")
	}
	p, ok := rd.V.(Ptr)
	if !ok {
		fail("reader %T", rd.V)
	}
	switch x := e.load(st, p).(type) {
	case *StreamC:
		return e.readStream(st, p, x, n)
	case *Rope:
		var out []readOut
		for _, o := range e.readStream(st, Ptr{}, &StreamC{R: x, Short: tt.False}, n) {
			if o.err == 0 {
				_, rest, _ := e.split(o.st, x, n)
				e.store(o.st, p, rest)
			} else {
				e.store(o.st, p, &Rope{})
			}
			out = append(out, o)
		}
		return out
	case *RdrV:
		if x.Kind == "bufr" {
			// a buffered reader reads ahead; nobody else reads from under it
			return e.readN(st, x.Under.(IfaceV), n, site)
		}
	case *StructV:
		if namedPath(x.T) == "io.LimitedReader" {
			lim := x.F[1].(*Term)
			var out []readOut
			c := tt.Sle(n, lim)
			s1, s2 := st, st.fork()
			ok1 := s1.feasible(c)
			ok2 := s2.feasible(tt.Not(c))
			if ok1 {
				s1.assume(c)
				for _, o := range e.readN(s1, x.F[0].(IfaceV), n, site) {
					y := *x
					y.F = []Value{x.F[0], tt.Sub(lim, n)}
					if o.err != 0 {
						y.F[1] = e.freshBV(o.st, "lim", 64)
					}
					e.store(o.st, p, &y)
					out = append(out, o)
				}
			}
			if ok2 {
				s2.assume(tt.Not(c))
				// at most what is left below the limit is taken
				none := tt.Sle(lim, tt.I(0))
				s3 := s2.fork()
				if s2.feasible(none) {
					s2.assume(none)
					out = append(out, readOut{st: s2, err: 1})
				}
				if s3.feasible(tt.Not(none)) {
					s3.assume(tt.Not(none))
					for _, o := range e.readN(s3, x.F[0].(IfaceV), lim, site) {
						y := *x
						y.F = []Value{x.F[0], tt.I(0)}
						if o.err == 0 {
							o.err = 2
						} else {
							y.F[1] = e.freshBV(o.st, "lim", 64)
						}
						e.store(o.st, p, &y)
						o.data = nil
						out = append(out, o)
					}
				}
			}
			return out
		}
	}
	fail("read from %T", e.load(st, p))
	return nil
}

func (e *Eng) readStream(st *State, p Ptr, x *StreamC, n *Term) []readOut {
	tt := e.tt
	set := func(s *State, f func(y *StreamC)) {
		if p.Obj == 0 {
			return
		}
		y := *x
		f(&y)
		e.store(s, p, &y)
	}
	if x.Any {
		c := tt.Ule(n, x.Left)
		s1, s2 := st, st.fork()
		var out []readOut
		s1.assume(c)
		var data *Rope
		if k, ok := n.CU(); ok && k <= 1024 {
			data = e.W(e.freshBV(s1, "in", int(8*k)))
		} else {
			data = e.chunk(e.freshU(s1, "in"), n)
		}
		set(s1, func(y *StreamC) {
			y.Left = tt.Sub(x.Left, n)
			y.Pos = tt.Add(x.Pos, n)
		})
		out = append(out, readOut{st: s1, data: data})
		// not enough left
		s2.seq = s1.seq
		s2.assume(tt.Ult(x.Left, n))
		set(s2, func(y *StreamC) {
			y.Left = tt.I(0)
			y.Pos = tt.Add(x.Pos, x.Left)
			y.Short = tt.True
		})
		s3 := s2.fork()
		none := tt.Eq(x.Left, tt.I(0))
		s2.assume(none)
		out = append(out, readOut{st: s2, err: 1})
		s3.assume(tt.Not(none))
		out = append(out, readOut{st: s3, err: 2})
		return out
	}
	short := func(s *State) []readOut {
		set(s, func(y *StreamC) {
			y.R = &Rope{}
			y.Short = tt.True
		})
		ln := e.ropeLen(x.R)
		none := tt.Eq(ln, tt.I(0))
		if v, k := s.quick(none); k {
			if v {
				return []readOut{{st: s, err: 1}}
			}
			return []readOut{{st: s, err: 2}}
		}
		s2 := s.fork()
		var out []readOut
		if s.feasible(none) {
			s.assume(none)
			out = append(out, readOut{st: s, err: 1})
		}
		if s2.feasible(tt.Not(none)) {
			s2.assume(tt.Not(none))
			out = append(out, readOut{st: s2, err: 2})
		}
		return out
	}
	full := func(s *State) []readOut {
		a, b, ok := e.split(s, x.R, n)
		if !ok {
			fail("cannot take %s bytes of %s", tt.Str(n), e.ropeStr(x.R))
		}
		set(s, func(y *StreamC) { y.R = b })
		return []readOut{{st: s, data: a}}
	}
	// a sequence that depends on a condition is read by cases
	if len(x.R.P) > 0 {
		if cd := condOf(x.R.P[0]); cd != nil {
			p0, rest := x.R.P[0], x.R.P[1:]
			if q, ok := e.settle(st, p0); ok {
				y := *x
				y.R = &Rope{append(append([]Piece{}, q...), rest...)}
				return e.readStream(st, p, &y, n)
			}
			var out []readOut
			s2 := st.fork()
			st.assume(cd)
			s2.assume(tt.Not(cd))
			y1, y2 := *x, *x
			y1.R = &Rope{append(append([]Piece{}, e.side(p0, true)...), rest...)}
			y2.R = &Rope{append(append([]Piece{}, e.side(p0, false)...), rest...)}
			out = append(out, e.readStream(st, p, &y1, n)...)
			return append(out, e.readStream(s2, p, &y2, n)...)
		}
		if q := x.R.P[0]; q.K == 'R' && len(q.Body.P) > 0 && condOf(q.Body.P[0]) != nil && st.prove(tt.Ult(q.Lo, q.Hi)) {
			b := e.subRope(q.Body, e.newSub(map[*Term]*Term{q.BV: q.Lo}))
			q.Lo = tt.Add(q.Lo, tt.I(1))
			np := append([]Piece{}, b.P...)
			if q.Lo != q.Hi {
				np = append(np, q)
			}
			y := *x
			y.R = &Rope{append(np, x.R.P[1:]...)}
			return e.readStream(st, p, &y, n)
		}
	}
	if a, b, ok := e.split(st, x.R, n); ok {
		set(st, func(y *StreamC) { y.R = b })
		return []readOut{{st: st, data: a}}
	}
	c := tt.Ule(n, e.ropeLen(x.R))
	s2 := st.fork()
	var out []readOut
	if st.feasible(c) {
		st.assume(c)
		out = append(out, full(st)...)
	}
	if s2.feasible(tt.Not(c)) {
		s2.assume(tt.Not(c))
		out = append(out, short(s2)...)
	}
	return out
}

// writeTo writes a sequence; the outcome values are the errors.
func (e *Eng) writeTo(st *State, w IfaceV, r *Rope, site ssa.Instruction) []Outcome {
	if w.T == nil {
		return []Outcome{{st: st, panic: "write to a nil writer"}}
	}
	p, ok := w.V.(Ptr)
	if ok && p.Obj != 0 {
		switch x := e.load(st, p).(type) {
		case *Rope:
			if strings.Contains(w.T.String(), "bytes.Buffer") {
				e.appendTo(st, p, r)
				return one(st, nilErr)
			}
		case *RdrV:
			if x.Kind == "bufw" || x.Kind == "sha" {
				y := *x
				y.Buf = e.cat(x.Buf, r)
				e.store(st, p, &y)
				return one(st, nilErr)
			}
		}
	}
	fn := e.prog.ssa.LookupMethod(w.T, nil, "Write")
	if fn == nil {
		fail("Write of %s", w.T)
	}
	var out []Outcome
	for _, o := range e.callStatic(st, fn, []Value{w.V, e.newBytes(st, r)}, nil, site) {
		if o.panic == "" {
			o.val = o.val.(TupleV)[1]
		}
		out = append(out, o)
	}
	return out
}

// rdrInvoke: methods of standard readers and writers called through interfaces.
func (e *Eng) rdrInvoke(st *State, iv IfaceV, m *types.Func, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	tt := e.tt
	p, ok := iv.V.(Ptr)
	if !ok || p.Obj == 0 {
		return nil, false
	}
	var c Value
	if _, ok := st.heap[p.Obj]; ok {
		c = e.load(st, p)
	}
	switch m.Name() {
	case "Write":
		switch c.(type) {
		case *Rope, *RdrV:
			r := e.bytesOf(st, args[0])
			var out []Outcome
			for _, o := range e.writeTo(st, iv, r, site) {
				if o.panic == "" {
					o.val = TupleV{e.ropeLen(r), o.val}
				}
				out = append(out, o)
			}
			return out, true
		}
	case "Sum":
		if x, ok := c.(*RdrV); ok && x.Kind == "sha" {
			h := e.W(tt.App("sha256", SBV(256), e.seqU(st, x.Buf)))
			return one(st, e.newBytes(st, e.cat(e.bytesOf(st, args[0]), h))), true
		}
	case "Reset":
		if x, ok := c.(*RdrV); ok && x.Kind == "sha" {
			y := *x
			y.Buf = &Rope{}
			e.store(st, p, &y)
			return one(st, nil), true
		}
	case "Read":
		switch c.(type) {
		case *StreamC, *RdrV:
		case *StructV:
			if namedPath(c.(*StructV).T) != "io.LimitedReader" {
				return nil, false
			}
		default:
			return nil, false
		}
		// a single Read may return less than asked for
		b := args[0].(SliceV)
		var out []Outcome
		s2 := st.fork()
		for _, o := range e.readFull(st, iv, b, site) {
			if tv := o.val.(TupleV); tv[1].(IfaceV).T != nil {
				// what was there is returned without an error
				if isZero(tv[0].(*Term)) {
					o.val = TupleV{tv[0], e.namedErr(o.st, "io.EOF")}
				} else {
					o.val = TupleV{tv[0], nilErr}
				}
			}
			out = append(out, o)
		}
		if n, ok := b.Len.CU(); ok && n >= 2 {
			b2 := b
			b2.Len = tt.I(1)
			out = append(out, e.readFull(s2, iv, b2, site)...)
		}
		return out, true
	}
	return nil, false
}

func (e *Eng) lock(st *State, p Ptr, add int64, ok func(*Term) *Term, msg string) []Outcome {
	if p.Obj == 0 {
		return []Outcome{{st: st, panic: "lock through nil"}}
	}
	c := e.load(st, p).(*Term)
	bad := e.need(st, ok(c), msg)
	e.store(st, p, e.tt.Add(c, e.tt.I(add)))
	out := one(st, nil)
	if bad != nil {
		out = append(out, Outcome{st: bad, panic: msg})
	}
	return out
}

func (e *Eng) timeBefore(a, b Value) *Term {
	tt := e.tt
	x, y := a.(*StructV), b.(*StructV)
	return tt.Or(tt.Slt(x.F[0].(*Term), y.F[0].(*Term)), tt.And(tt.Eq(x.F[0].(*Term), y.F[0].(*Term)), tt.Ult(x.F[1].(*Term), y.F[1].(*Term))))
}

// ---------------------------------------------------------------------------
// Addresses

var v4prefix = new(big.Int).SetUint64(0xffff)

func (e *Eng) ipCases(st *State, ip SliceV, f func(s *State, n int, r *Rope) []Outcome) []Outcome {
	tt := e.tt
	if c, ok := st.constOf(ip.Len); ok {
		if c == 4 || c == 16 {
			ip.Len = tt.I(int64(c))
			return f(st, int(c), e.bytesOf(st, ip))
		}
		return f(st, 0, nil)
	}
	var out []Outcome
	var rest []*Term
	for _, n := range []int{4, 16} {
		c := tt.Eq(ip.Len, tt.I(int64(n)))
		rest = append(rest, tt.Not(c))
		s := st.fork()
		if !s.feasible(c) {
			continue
		}
		s.assume(c)
		x := ip
		x.Len = tt.I(int64(n))
		out = append(out, f(s, n, e.bytesOf(s, x))...)
	}
	c := tt.And(rest...)
	if st.feasible(c) {
		st.assume(c)
		out = append(out, f(st, 0, nil)...)
	}
	return out
}

func (e *Eng) ipTo4(st *State, ip SliceV) []Outcome {
	tt := e.tt
	return e.ipCases(st, ip, func(s *State, n int, r *Rope) []Outcome {
		switch n {
		case 4:
			return one(s, e.newBytes(s, r))
		case 16:
			w := e.word(r)
			c := tt.Eq(tt.Extract(127, 32, w), tt.BVBig(96, v4prefix))
			var out []Outcome
			s2 := s.fork()
			if s.feasible(c) {
				s.assume(c)
				out = append(out, Outcome{st: s, val: e.newBytes(s, e.W(tt.Extract(31, 0, w)))})
			}
			if s2.feasible(tt.Not(c)) {
				s2.assume(tt.Not(c))
				out = append(out, Outcome{st: s2, val: e.nilSlice()})
			}
			return out
		}
		return one(s, e.nilSlice())
	})
}

func (e *Eng) ipTo16(st *State, ip SliceV) []Outcome {
	return e.ipCases(st, ip, func(s *State, n int, r *Rope) []Outcome {
		switch n {
		case 4:
			return one(s, e.newBytes(s, e.compactR(e.cat(e.W(e.tt.BVBig(96, v4prefix)), r))))
		case 16:
			return one(s, e.newBytes(s, r))
		}
		return one(s, e.nilSlice())
	})
}

func (e *Eng) ipMulticast(st *State, ip SliceV) []Outcome {
	tt := e.tt
	return e.ipCases(st, ip, func(s *State, n int, r *Rope) []Outcome {
		v4 := func(w *Term) *Term { return tt.Eq(tt.Extract(31, 28, w), tt.BV(4, 0xe)) }
		switch n {
		case 4:
			return one(s, v4(e.word(r)))
		case 16:
			w := e.word(r)
			return one(s, tt.Ite(tt.Eq(tt.Extract(127, 32, w), tt.BVBig(96, v4prefix)), v4(tt.Extract(31, 0, w)), tt.Eq(tt.Extract(127, 120, w), tt.BV(8, 0xff))))
		}
		return one(s, tt.False)
	})
}

// resolve: whether and to what a text resolves is a function of the text.
func (e *Eng) resolve(st *State, fn *ssa.Function, args []Value) []Outcome {
	tt := e.tt
	r := args[1].(*Rope)
	u := e.seqU(st, r)
	ptT := fn.Signature.Results().At(0).Type().(*types.Pointer)
	if u.Op == OApp && u.Name == "addrString" {
		// the text of an address resolves to that address
		ip := u.Args[0]
		var ipr *Rope
		if ip.Op == OApp && strings.HasPrefix(ip.Name, "seq:W") && len(ip.Args) == 1 {
			ipr = e.W(ip.Args[0])
			if ip.Args[0].S.W == 32 {
				ipr = e.W(tt.Concat(tt.BVBig(96, v4prefix), ip.Args[0]))
			}
			s := &StructV{T: ptT.Elem(), F: []Value{e.newBytes(st, ipr), u.Args[1], &Rope{}}}
			return one(st, TupleV{Ptr{Obj: e.alloc(st, s)}, nilErr})
		}
	}
	ok := tt.App("resolves", SBool, u)
	s2 := st.fork()
	var out []Outcome
	if st.feasible(ok) {
		st.assume(ok)
		s := &StructV{T: ptT.Elem(), F: []Value{e.newBytes(st, e.W(tt.App("resolvedIP", SBV(128), u))), tt.Zext(64, tt.App("resolvedPort", SBV(16), u)), &Rope{}}}
		out = append(out, Outcome{st: st, val: TupleV{Ptr{Obj: e.alloc(st, s)}, nilErr}})
	}
	if s2.feasible(tt.Not(ok)) {
		s2.assume(tt.Not(ok))
		out = append(out, Outcome{st: s2, val: TupleV{Ptr{}, e.newErr(s2, "ResolveTCPAddr")}})
	}
	return out
}

// ---------------------------------------------------------------------------
// Sorting: the result is the list under the permutation determined by the
// contents and the order.

func (e *Eng) lessMethod(iv IfaceV, site ssa.Instruction) func(s *State, i, j *Term) []Outcome {
	fn := e.prog.ssa.LookupMethod(iv.T, nil, "Less")
	if fn == nil {
		fail("Less of %s", iv.T)
	}
	return func(s *State, i, j *Term) []Outcome {
		return e.callStatic(s, fn, []Value{iv.V, i, j}, nil, site)
	}
}

// boolOf turns the outcomes of a pure boolean computation into a formula.
func (e *Eng) boolOf(base *State, outs []Outcome) *Term {
	tt := e.tt
	var ds []*Term
	for _, o := range outs {
		if o.panic != "" {
			continue
		}
		cs := append([]*Term{}, o.st.pc[len(base.pc):]...)
		cs = append(cs, o.val.(*Term))
		ds = append(ds, tt.And(cs...))
	}
	return tt.Or(ds...)
}

func (e *Eng) lessTerm(st *State, n *Term, less func(s *State, i, j *Term) []Outcome, i, j *Term) *Term {
	s := st.fork()
	s.assume(e.tt.Ult(i, n))
	s.assume(e.tt.Ult(j, n))
	b := s.fork()
	outs := less(s, i, j)
	for _, o := range outs {
		if o.panic != "" {
			fail("the order may panic: %s", o.panic)
		}
	}
	return e.boolOf(b, outs)
}

func (e *Eng) sortedBy(st *State, sl SliceV, less func(s *State, i, j *Term) []Outcome) *Term {
	tt := e.tt
	if c, ok := sl.Len.CU(); ok && c <= 1 {
		return tt.True
	}
	k := tt.Var(tt.FreshName("q!"), S64)
	k1 := tt.Add(k, tt.I(1))
	s := st.fork()
	s.assume(tt.Ult(k, tt.Sub(sl.Len, tt.I(1))))
	s.assume(tt.Ult(tt.I(1), sl.Len))
	b := e.lessTerm(s, sl.Len, less, k1, k)
	n := tt.Ite(tt.Eq(sl.Len, tt.I(0)), tt.I(0), tt.Sub(sl.Len, tt.I(1)))
	return tt.Forall(n, k, tt.Not(b))
}

func (e *Eng) sortIface(st *State, iv IfaceV, site ssa.Instruction) []Outcome {
	sl, ok := iv.V.(SliceV)
	if !ok {
		fail("sort.Sort of %T", iv.V)
	}
	// Len and Swap are those of the list
	lf := e.prog.ssa.LookupMethod(iv.T, nil, "Len")
	outs := e.callStatic(st, lf, []Value{iv.V}, nil, site)
	if len(outs) != 1 || outs[0].panic != "" || !e.eqLen(st, outs[0].val.(*Term), sl.Len) {
		fail("Len of %s is not the length", iv.T)
	}
	return e.sortBy(st, sl, iv.T.Underlying().(*types.Slice).Elem(), e.lessMethod(iv, site))
}

func (e *Eng) sortSlice(st *State, iv IfaceV, f FuncV, site ssa.Instruction) []Outcome {
	return e.sortBy(st, iv.V.(SliceV), iv.T.Underlying().(*types.Slice).Elem(), func(s *State, i, j *Term) []Outcome {
		return e.callStatic(s, f.Fn, []Value{i, j}, f.Bind, site)
	})
}

// leaves are the terms of a plain value.
func leaves(v Value) ([]*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}, true
	case *StructV:
		var r []*Term
		for _, f := range x.F {
			l, ok := leaves(f)
			if !ok {
				return nil, false
			}
			r = append(r, l...)
		}
		return r, true
	}
	return nil, false
}

func withLeaves(v Value, ts *[]*Term) Value {
	switch x := v.(type) {
	case *Term:
		t := (*ts)[0]
		*ts = (*ts)[1:]
		return t
	case *StructV:
		n := &StructV{T: x.T}
		for _, f := range x.F {
			n.F = append(n.F, withLeaves(f, ts))
		}
		return n
	}
	return v
}

// sortConc sorts a list of known length by a total order on its elements: the
// k-th element is a function of the elements as a multiset.
func (e *Eng) sortConc(st *State, sl SliceV, less func(s *State, i, j *Term) []Outcome) bool {
	tt := e.tt
	cn, ok := sl.Len.CU()
	if !ok || cn > 64 {
		return false
	}
	arr, ok := e.load(st, sl.Base).(*ArrV)
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "sort of %d elements in %T\n", cn, e.load(st, sl.Base))
	}
	if !ok || !isZero(sl.Off) || len(arr.E) < int(cn) {
		return false
	}
	n := int(cn)
	ts := make([][]*Term, n)
	for i := range ts {
		if ts[i], ok = leaves(arr.E[i]); !ok || len(ts[i]) == 0 {
			return false
		}
	}
	// whole seconds and the like: what is the same in all elements
	fixed := make([]*Term, len(ts[0]))
	for j := range fixed {
		c := ts[0][j]
		if !c.IsConst() && c.S.K == KBV {
			c = tt.BV(c.S.W, 0)
		}
		ok := true
		for i := range ts {
			if ts[i][j] != c && (!c.IsConst() || !st.prove(tt.Eq(ts[i][j], c))) {
				ok = false
				break
			}
		}
		if ok {
			fixed[j] = c
		}
	}
	// a list of any elements
	s := st.fork()
	a := &ArrV{E: append([]Value{}, arr.E...)}
	fr := make([][]*Term, n)
	for i := range fr {
		v := 0
		for j, t := range ts[i] {
			if fixed[j] != nil {
				fr[i] = append(fr[i], fixed[j])
				continue
			}
			fr[i] = append(fr[i], tt.Var(fmt.Sprintf("srt!%d.%d", i, v), t.S))
			v++
		}
		l := fr[i]
		a.E[i] = withLeaves(arr.E[i], &l)
	}
	e.store(s, sl.Base, a)
	lt := func(i, j int) *Term { return e.lessTerm(s, sl.Len, less, tt.I(int64(i)), tt.I(int64(j))) }
	l01, l10 := lt(0, 1), lt(1, 0)
	var same []*Term
	for j := range fr[0] {
		same = append(same, tt.Eq(fr[0][j], fr[1][j]))
	}
	must := func(c *Term) bool {
		if c.IsTrue() {
			return true
		}
		r, _, _ := e.sol.Check([]*Term{tt.Not(c)}, false)
		return r == RUnsat
	}
	if !must(tt.Or(append([]*Term{l01, l10}, tt.And(same...))...)) || !must(tt.Not(tt.And(l01, l10))) {
		return false
	}
	if n > 2 && !must(tt.Implies(tt.And(l01, lt(1, 2)), lt(0, 2))) {
		return false
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(x, y int) bool {
		for j := range ts[0] {
			if p, q := ts[idx[x]][j].ID, ts[idx[y]][j].ID; p != q {
				return p < q
			}
		}
		return false
	})
	var args []*Term
	for _, i := range idx {
		for j, t := range ts[i] {
			if fixed[j] == nil {
				args = append(args, t)
			}
		}
	}
	out := &ArrV{E: append([]Value{}, arr.E...)}
	var prev []*Term
	for k := 0; k < n; k++ {
		var l []*Term
		v := 0
		for j, t := range ts[0] {
			if fixed[j] != nil {
				l = append(l, fixed[j])
				continue
			}
			l = append(l, tt.App(fmt.Sprintf("kth.%d.%d.%d.%d", l01.ID, n, k, v), t.S, args...))
			v++
		}
		var is []*Term
		for i := range ts {
			var eq []*Term
			for j := range l {
				if fixed[j] == nil {
					eq = append(eq, tt.Eq(l[j], ts[i][j]))
				}
			}
			is = append(is, tt.And(eq...))
		}
		st.assume(tt.Or(is...))
		m := map[*Term]*Term{}
		if prev != nil {
			for j := range l {
				if fixed[j] == nil {
					m[fr[1][j]], m[fr[0][j]] = prev[j], l[j]
				}
			}
			st.assume(tt.Not(tt.Subst(l01, m)))
		}
		prev = append([]*Term{}, l...)
		out.E[k] = withLeaves(arr.E[k], &l)
	}
	e.store(st, sl.Base, out)
	return true
}

func (e *Eng) sortBy(st *State, sl SliceV, el types.Type, less func(s *State, i, j *Term) []Outcome) []Outcome {
	tt := e.tt
	if c, ok := sl.Len.CU(); ok && c <= 1 {
		return one(st, nil)
	}
	if sl.Base.Obj == 0 {
		return one(st, nil)
	}
	if e.sortConc(st, sl, less) {
		return one(st, nil)
	}
	n := sl.Len
	i, j := tt.Var("srt!i", S64), tt.Var("srt!j", S64)
	lt := e.lessTerm(st, n, less, i, j)
	// the contents as a function of the index
	kv := tt.Var("srt!k", S64)
	s0 := st.fork()
	s0.assume(tt.Ult(kv, n))
	elem := e.elemAt(s0, sl, kv)
	key := e.valKey(st, elem)
	// name the permutation after the order and the contents
	name := fmt.Sprintf("perm.%d.%s", lt.ID, key)
	id, ok := e.lamFns[name]
	if !ok {
		id = fmt.Sprintf("perm%d", len(e.lamFns))
		e.lamFns[name] = id
	}
	// free index variables of enclosing iterations are arguments
	idx := append([]*Term{}, st.genk...)
	app := func(f string, k *Term) *Term { return tt.App(f, S64, append(append([]*Term{}, idx...), n, k)...) }
	el2 := func(k *Term) Value { return e.subV(elem, e.newSub(map[*Term]*Term{kv: app(id, k)})) }
	k := tt.Var(tt.FreshName("q!"), S64)
	base := e.lam(el2(k), k)
	nv := &SymArr{Len: n, Base: base}
	if !isZero(sl.Off) || !e.eqLen(st, e.lenOf(e.load(st, sl.Base)), n) {
		// part of a longer array: overwrite the segment
		old, ok := e.load(st, sl.Base).(*SymArr)
		if !ok {
			fail("sort of a part of %T", e.load(st, sl.Base))
		}
		k2 := tt.Var(tt.FreshName("q!"), S64)
		seg := e.lam(el2(tt.Sub(k2, sl.Off)), k2)
		y := *old
		y.Layers = append(append([]Layer{}, old.Layers...), Layer{Lo: sl.Off, Hi: tt.Add(sl.Off, n), L: seg})
		e.store(st, sl.Base, &y)
	} else {
		if _, isArr := e.load(st, sl.Base).(*ArrV); isArr {
			if c, ok := n.CU(); ok {
				a := &ArrV{}
				for x := uint64(0); x < c; x++ {
					a.E = append(a.E, el2(tt.BV(64, x)))
				}
				e.store(st, sl.Base, a)
			} else {
				fail("sort of a part of an array")
			}
		} else {
			e.store(st, sl.Base, nv)
		}
	}
	trig := func(f *Term) {
		cs := []*Term{f}
		if f.Op == OAnd {
			cs = f.Args
		}
		for _, c := range cs {
			if c.Op == OForall {
				tt.permFact[c] = true
			}
			st.assume(c)
		}
	}
	q := tt.Var(tt.FreshName("q!"), S64)
	trig(tt.Forall(n, q, tt.And(tt.Ult(app(id, q), n), tt.Eq(app(id+"inv", app(id, q)), q))))
	trig(tt.Forall(n, q, tt.And(tt.Ult(app(id+"inv", q), n), tt.Eq(app(id, app(id+"inv", q)), q))))
	q21 := tt.Add(q, tt.I(1))
	srt := tt.Subst(lt, map[*Term]*Term{i: app(id, q21), j: app(id, q)})
	nm1 := tt.Ite(tt.Eq(n, tt.I(0)), tt.I(0), tt.Sub(n, tt.I(1)))
	trig(tt.Forall(nm1, q, tt.Not(srt)))
	return one(st, nil)
}

func (e *Eng) lenOf(v Value) *Term {
	switch x := v.(type) {
	case *SymArr:
		return x.Len
	case *ArrV:
		return e.tt.I(int64(len(x.E)))
	case *Rope:
		return e.ropeLen(x)
	}
	fail("length of %T", v)
	return nil
}

// valKey is a text that determines a value.
func (e *Eng) valKey(st *State, v Value) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case *Term:
		return fmt.Sprintf("t%d", x.ID)
	case *StructV:
		s := "{"
		for _, f := range x.F {
			s += e.valKey(st, f) + ","
		}
		return s + "}"
	case *ArrV:
		s := "["
		for _, f := range x.E {
			s += e.valKey(st, f) + ","
		}
		return s + "]"
	case *Rope:
		return fmt.Sprintf("r%d", e.seqU(st, x).ID)
	case Ptr:
		s := fmt.Sprintf("p%d", x.Obj)
		for _, p := range x.Path {
			if p.Idx != nil {
				s += fmt.Sprintf("/t%d", p.Idx.ID)
			} else {
				s += fmt.Sprintf("/%d", p.F)
			}
		}
		return s
	case SliceV:
		return fmt.Sprintf("s(%s,%d,%d)", e.valKey(st, x.Base), x.Off.ID, x.Len.ID)
	case IfaceV:
		if x.T == nil {
			return "nil"
		}
		return "i(" + x.T.String() + "," + e.valKey(st, x.V) + ")"
	case MapRef:
		return fmt.Sprintf("m%d", x.Obj)
	case ChanRef:
		return fmt.Sprintf("c%d", x.Obj)
	case FuncV:
		return fmt.Sprintf("f%v", x.Fn)
	}
	fail("key of %T", v)
	return ""
}

var _ = constant.MakeInt64
