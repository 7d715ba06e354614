package nodem

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/skycoin/cxo/node/msg"
)

// A Frame is a received message
type Frame struct {
	Seq, Rseq uint32
	M         msg.Msg // nil if it can't be decoded
	B         []byte
}

// Raw is a peer that can do anything
type Raw struct {
	C    net.Conn
	In   chan Frame    // received, except those the On takes
	Done chan struct{} // closed by the node
	On   func(f Frame) bool

	mx   sync.Mutex
	seq  uint32
	dead bool // can't write

	pmx sync.Mutex // held if paused
	pau bool
}

// Pause reading
func (r *Raw) Pause(yes bool) {
	if yes != r.pau {
		if r.pau = yes; yes {
			r.pmx.Lock()
		} else {
			r.pmx.Unlock()
		}
	}
}

// NewRaw peer
func NewRaw(c net.Conn, on func(f Frame) bool) (r *Raw) {
	r = &Raw{C: c, In: make(chan Frame, 4096), Done: make(chan struct{}), On: on}
	go r.read()
	return
}

// Dial a node
func Dial(addr string, on func(f Frame) bool) (r *Raw, err error) {
	var c net.Conn
	if c, err = net.Dial("tcp", addr); err != nil {
		return
	}
	return NewRaw(c, on), nil
}

func (r *Raw) read() {
	defer close(r.Done)
	for {
		r.pmx.Lock()
		r.pmx.Unlock()
		var h [4]byte
		if _, err := io.ReadFull(r.C, h[:]); err != nil {
			return
		}
		var b = make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(r.C, b); err != nil {
			return
		}
		var f = Frame{B: b}
		if len(b) > 8 {
			f.Seq, f.Rseq = binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:])
			if m, err := msg.Decode(b[8:]); err == nil {
				f.M = m
			}
		}
		if r.On != nil && r.On(f) {
			continue
		}
		select {
		case r.In <- f:
		default:
		}
	}
}

// Bytes are sent as is
func (r *Raw) Bytes(b []byte) {
	r.mx.Lock()
	defer r.mx.Unlock()
	if r.dead {
		return
	}
	r.C.SetWriteDeadline(time.Now().Add(5 * time.Second))
	if _, err := r.C.Write(b); err != nil {
		r.dead = true
	}
}

// Frame with length
func (r *Raw) Frame(b []byte) {
	var h = make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	r.Bytes(append(h, b...))
}

// Enc encodes a message with numbers
func Enc(seq, rseq uint32, m []byte) (b []byte) {
	b = make([]byte, 8, 8+len(m))
	binary.LittleEndian.PutUint32(b, seq)
	binary.LittleEndian.PutUint32(b[4:], rseq)
	return append(b, m...)
}

// Next number
func (r *Raw) Next() uint32 {
	r.mx.Lock()
	defer r.mx.Unlock()
	r.seq++
	return r.seq
}

// Send a message
func (r *Raw) Send(rseq uint32, m msg.Msg) (seq uint32) {
	seq = r.Next()
	r.Frame(Enc(seq, rseq, m.Encode()))
	return
}

// Errors of the Raw
var (
	ErrRawClosed  = errors.New("closed by the node")
	ErrRawTimeout = errors.New("no answer")
)

// Wait for a frame
func (r *Raw) Wait(d time.Duration, want func(f Frame) bool) (f Frame, err error) {
	var tm = time.After(d)
	for {
		select {
		case f = <-r.In:
			if want(f) {
				return
			}
		case <-tm:
			return f, ErrRawTimeout
		case <-r.Done:
			for {
				select {
				case f = <-r.In:
					if want(f) {
						return f, nil
					}
				default:
					return f, ErrRawClosed
				}
			}
		}
	}
}

// Ask and wait for the answer
func (r *Raw) Ask(m msg.Msg, d time.Duration) (msg.Msg, error) {
	var seq = r.Send(0, m)
	var f, err = r.Wait(d, func(f Frame) bool { return f.Rseq == seq })
	return f.M, err
}

// Hello is handshake of the one who connects
func (r *Raw) Hello(id PK) (peer PK, err error) {
	var m msg.Msg
	if m, err = r.Ask(&msg.Syn{Protocol: msg.Version, NodeID: id}, 20*time.Second); err != nil {
		return
	}
	switch x := m.(type) {
	case *msg.Ack:
		return x.NodeID, nil
	case *msg.Err:
		return PK{}, errors.New(x.Err)
	}
	return PK{}, fmt.Errorf("unexpected answer %T", m)
}

// Welcome is handshake of the one who accepts
func (r *Raw) Welcome(id PK) (peer PK, err error) {
	var f Frame
	if f, err = r.Wait(20*time.Second, func(Frame) bool { return true }); err != nil {
		return
	}
	var x, ok = f.M.(*msg.Syn)
	if !ok {
		return PK{}, fmt.Errorf("unexpected message %T", f.M)
	}
	r.Send(f.Seq, &msg.Ack{NodeID: id})
	return x.NodeID, nil
}

// Closed by the node within the time
func (r *Raw) Closed(d time.Duration) bool {
	select {
	case <-r.Done:
		return true
	case <-time.After(d):
		return false
	}
}

// IsClosed by the node
func (r *Raw) IsClosed() bool {
	select {
	case <-r.Done:
		return true
	default:
		return false
	}
}

// Close it
func (r *Raw) Close() { r.C.Close() }
