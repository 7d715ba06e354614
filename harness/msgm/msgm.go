// Package msgm generates messages with an independent encoder
package msgm

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"

	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/skycoin/src/cipher"
)

// Names of types
var Names = []string{"", "Ping", "Pong", "Syn", "Ack", "Ok", "Err", "Sub", "Unsub", "RqList", "List", "Root", "RqObject", "Object", "RqPreview", "RqPeers", "Peers"}

// wire is the independent encoder
type wire struct{ bytes.Buffer }

func (w *wire) u16(x uint16) { var b [2]byte; binary.LittleEndian.PutUint16(b[:], x); w.Write(b[:]) }
func (w *wire) u32(x uint32) { var b [4]byte; binary.LittleEndian.PutUint32(b[:], x); w.Write(b[:]) }
func (w *wire) u64(x uint64) { var b [8]byte; binary.LittleEndian.PutUint64(b[:], x); w.Write(b[:]) }
func (w *wire) blob(x []byte) {
	w.u32(uint32(len(x)))
	w.Write(x)
}

// PK is random public key
func PK(r *rand.Rand) (p cipher.PubKey) {
	if r.Intn(6) > 0 {
		r.Read(p[:])
	}
	return
}

// Blob is random bytes
func Blob(r *rand.Rand) (b []byte) {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		b = make([]byte, r.Intn(70000))
	default:
		b = make([]byte, r.Intn(100))
	}
	r.Read(b)
	return
}

func u64(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	}
	return r.Uint64() >> uint(r.Intn(64))
}

// Random message, its bytes, and offsets of lengths in the bytes
func Random(r *rand.Rand, t int) (m msg.Msg, b []byte, lens []int) {
	var w = new(wire)
	w.WriteByte(byte(t))
	var l = func() { lens = append(lens, w.Len()) }
	switch Names[t] {
	case "Ping":
		m = &msg.Ping{}
	case "Pong":
		m = &msg.Pong{}
	case "Syn":
		var x = &msg.Syn{Protocol: uint16(r.Intn(65536)), NodeID: PK(r)}
		w.u16(x.Protocol)
		w.Write(x.NodeID[:])
		m = x
	case "Ack":
		var x = &msg.Ack{NodeID: PK(r)}
		w.Write(x.NodeID[:])
		m = x
	case "Ok":
		m = &msg.Ok{}
	case "Err":
		var x = &msg.Err{Err: string(Blob(r))}
		l()
		w.blob([]byte(x.Err))
		m = x
	case "Sub":
		var x = &msg.Sub{Feed: PK(r)}
		w.Write(x.Feed[:])
		m = x
	case "Unsub":
		var x = &msg.Unsub{Feed: PK(r)}
		w.Write(x.Feed[:])
		m = x
	case "RqList":
		m = &msg.RqList{}
	case "List":
		var x = new(msg.List)
		for i := r.Intn(12); i > 0; i-- {
			x.Feeds = append(x.Feeds, PK(r))
		}
		l()
		w.u32(uint32(len(x.Feeds)))
		for _, f := range x.Feeds {
			w.Write(f[:])
		}
		m = x
	case "Root":
		var x = &msg.Root{Feed: PK(r), Nonce: u64(r), Seq: u64(r), Value: Blob(r)}
		r.Read(x.Sig[:])
		w.Write(x.Feed[:])
		w.u64(x.Nonce)
		w.u64(x.Seq)
		l()
		w.blob(x.Value)
		w.Write(x.Sig[:])
		m = x
	case "RqObject":
		var x = new(msg.RqObject)
		if r.Intn(6) > 0 {
			r.Read(x.Key[:])
		}
		w.Write(x.Key[:])
		m = x
	case "Object":
		var x = &msg.Object{Value: Blob(r)}
		l()
		w.blob(x.Value)
		m = x
	case "RqPreview":
		var x = &msg.RqPreview{Feed: PK(r)}
		w.Write(x.Feed[:])
		m = x
	case "RqPeers":
		var x = &msg.RqPeers{Feed: PK(r)}
		w.Write(x.Feed[:])
		m = x
	case "Peers":
		var x = &msg.Peers{Feed: PK(r)}
		for i := r.Intn(6); i > 0; i-- {
			x.List = append(x.List, msg.PeerInfo{PubKey: PK(r), Metadata: Blob(r), TCPAddr: string(Blob(r)), UDPAddr: string(Blob(r))})
		}
		w.Write(x.Feed[:])
		l()
		w.u32(uint32(len(x.List)))
		for _, p := range x.List {
			w.Write(p.PubKey[:])
			l()
			w.blob(p.Metadata)
			l()
			w.blob([]byte(p.TCPAddr))
			l()
			w.blob([]byte(p.UDPAddr))
		}
		m = x
	}
	return m, w.Bytes(), lens
}

// Mutate some bytes
func Mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
		var i = r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = b[:i]
		case 3:
			for j := i; j < i+4 && j < len(b); j++ {
				b[j] = 0xff
			}
		case 4:
			var j = i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 5:
			var j = i + r.Intn(len(b)-i)
			if j > i+200 {
				j = i + 200
			}
			b = append(b[:j:j], b[i:]...)
		case 6:
			b[i] = byte(r.Intn(30))
		case 7:
			for j := i; j < i+4 && j < len(b); j++ {
				b[j] = 0
			}
		}
	}
	return b
}
