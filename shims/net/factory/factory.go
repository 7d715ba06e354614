// Package factory is a stand-in for github.com/skycoin/net/factory, which is
// not available offline. It moves length-prefixed messages over real TCP (or
// datagrams over UDP) sockets and exposes the connection as two channels.
package factory

import (
	"bufio"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
)

// MaxMessage limits length of a message
const MaxMessage = 64 << 20

// A Connection between two peers
type Connection struct {
	isTCP bool
	addr  net.Addr

	in  chan []byte
	out chan []byte

	closeo sync.Once
	closeq chan struct{}

	onClose func()
}

func newConnection(addr net.Addr, isTCP bool) (c *Connection) {
	c = new(Connection)
	c.isTCP = isTCP
	c.addr = addr
	c.in = make(chan []byte, 128)
	c.out = make(chan []byte, 1)
	c.closeq = make(chan struct{})
	return
}

// GetChanIn of incoming messages, it's closed with the Connection
func (c *Connection) GetChanIn() <-chan []byte { return c.in }

// GetChanOut of outgoing messages
func (c *Connection) GetChanOut() chan<- []byte { return c.out }

// GetRemoteAddr returns address of the peer
func (c *Connection) GetRemoteAddr() net.Addr { return c.addr }

// IsTCP connection
func (c *Connection) IsTCP() bool { return c.isTCP }

// IsUDP connection
func (c *Connection) IsUDP() bool { return !c.isTCP }

// IsClosed Connection
func (c *Connection) IsClosed() bool {
	select {
	case <-c.closeq:
		return true
	default:
	}
	return false
}

// Close the Connection
func (c *Connection) Close() {
	c.closeo.Do(func() {
		close(c.closeq)
		if c.onClose != nil {
			c.onClose()
		}
	})
}

// run pumps; the write must fail after the Close
func (c *Connection) run(read func() ([]byte, error), write func([]byte) error) {
	go func() { // reader
		defer close(c.in)
		defer c.Close()
		for {
			var p, err = read()
			if err != nil {
				return
			}
			select {
			case c.in <- p:
			case <-c.closeq:
				return
			}
		}
	}()
	go func() { // writer
		var err error
		for {
			select {
			case p := <-c.out:
				if err == nil {
					if err = write(p); err != nil {
						c.Close()
					}
				}
			case <-c.closeq:
				return
			}
		}
	}()
}

// A Factory keeps connections
type Factory struct {
	AcceptedCallback func(connection *Connection)

	mx     sync.Mutex
	conns  map[*Connection]struct{}
	closed bool
}

func (f *Factory) add(c *Connection) (ok bool) {
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.closed {
		return
	}
	if f.conns == nil {
		f.conns = make(map[*Connection]struct{})
	}
	f.conns[c] = struct{}{}
	return true
}

func (f *Factory) del(c *Connection) {
	f.mx.Lock()
	defer f.mx.Unlock()
	delete(f.conns, c)
}

func (f *Factory) closeAll() (first bool) {
	f.mx.Lock()
	first = !f.closed
	f.closed = true
	var cs []*Connection
	for c := range f.conns {
		cs = append(cs, c)
	}
	f.mx.Unlock()
	for _, c := range cs {
		c.Close()
	}
	return
}

// A TCPFactory of TCP connections
type TCPFactory struct {
	Factory
	lmx sync.Mutex
	l   net.Listener
}

// NewTCPFactory creates TCPFactory
func NewTCPFactory() *TCPFactory { return new(TCPFactory) }

// Listen on address
func (f *TCPFactory) Listen(address string) (err error) {
	var l net.Listener
	if l, err = net.Listen("tcp", address); err != nil {
		return
	}
	f.lmx.Lock()
	f.l = l
	f.lmx.Unlock()
	go func() {
		for {
			var nc, err = l.Accept()
			if err != nil {
				return
			}
			var c = f.wrap(nc)
			if c == nil {
				return
			}
			if f.AcceptedCallback != nil {
				go f.AcceptedCallback(c)
			}
		}
	}()
	return
}

// ListenAddr returns actual address
func (f *TCPFactory) ListenAddr() string {
	f.lmx.Lock()
	defer f.lmx.Unlock()
	if f.l == nil {
		return ""
	}
	return f.l.Addr().String()
}

// Connect to address
func (f *TCPFactory) Connect(address string) (c *Connection, err error) {
	var nc net.Conn
	if nc, err = net.Dial("tcp", address); err != nil {
		return
	}
	if c = f.wrap(nc); c == nil {
		return nil, errors.New("factory closed")
	}
	return
}

func (f *TCPFactory) wrap(nc net.Conn) (c *Connection) {
	c = newConnection(nc.RemoteAddr(), true)
	c.onClose = func() {
		nc.Close()
		f.del(c)
	}
	if f.add(c) == false {
		nc.Close()
		return nil
	}
	var br = bufio.NewReader(nc)
	c.run(func() (p []byte, err error) {
		var h [4]byte
		if _, err = io.ReadFull(br, h[:]); err != nil {
			return
		}
		var l = binary.LittleEndian.Uint32(h[:])
		if l > MaxMessage {
			return nil, errors.New("message too long")
		}
		p = make([]byte, l)
		_, err = io.ReadFull(br, p)
		return
	}, func(p []byte) (err error) {
		var b = make([]byte, 4, 4+len(p))
		binary.LittleEndian.PutUint32(b, uint32(len(p)))
		_, err = nc.Write(append(b, p...))
		return
	})
	return
}

// Close listener and all connections
func (f *TCPFactory) Close() (err error) {
	f.lmx.Lock()
	if f.l != nil {
		err = f.l.Close()
	}
	f.lmx.Unlock()
	f.closeAll()
	return
}

// A UDPFactory of UDP connections
type UDPFactory struct {
	Factory
	lmx sync.Mutex
	l   *net.UDPConn
	by  map[string]chan []byte
}

// NewUDPFactory creates UDPFactory
func NewUDPFactory() *UDPFactory { return new(UDPFactory) }

// Listen on address
func (f *UDPFactory) Listen(address string) (err error) {
	var a *net.UDPAddr
	if a, err = net.ResolveUDPAddr("udp", address); err != nil {
		return
	}
	var l *net.UDPConn
	if l, err = net.ListenUDP("udp", a); err != nil {
		return
	}
	f.lmx.Lock()
	f.l = l
	f.by = make(map[string]chan []byte)
	f.lmx.Unlock()
	go func() {
		var buf = make([]byte, 65536)
		for {
			var n, ra, err = l.ReadFromUDP(buf)
			if err != nil {
				return
			}
			var p = append([]byte(nil), buf[:n]...)
			f.lmx.Lock()
			var q, ok = f.by[ra.String()]
			if !ok {
				q = make(chan []byte, 1024)
				f.by[ra.String()] = q
			}
			f.lmx.Unlock()
			if !ok {
				var c = newConnection(ra, false)
				c.onClose = func() {
					f.lmx.Lock()
					delete(f.by, ra.String())
					f.lmx.Unlock()
					f.del(c)
				}
				if f.add(c) == false {
					return
				}
				c.run(func() ([]byte, error) {
					select {
					case p := <-q:
						return p, nil
					case <-c.closeq:
						return nil, io.EOF
					}
				}, func(p []byte) (err error) {
					_, err = l.WriteToUDP(p, ra)
					return
				})
				if f.AcceptedCallback != nil {
					go f.AcceptedCallback(c)
				}
			}
			select {
			case q <- p:
			default: // lost
			}
		}
	}()
	return
}

// ListenAddr returns actual address
func (f *UDPFactory) ListenAddr() string {
	f.lmx.Lock()
	defer f.lmx.Unlock()
	if f.l == nil {
		return ""
	}
	return f.l.LocalAddr().String()
}

// Connect to address
func (f *UDPFactory) Connect(address string) (c *Connection, err error) {
	var nc net.Conn
	if nc, err = net.Dial("udp", address); err != nil {
		return
	}
	c = newConnection(nc.RemoteAddr(), false)
	c.onClose = func() {
		nc.Close()
		f.del(c)
	}
	if f.add(c) == false {
		nc.Close()
		return nil, errors.New("factory closed")
	}
	var buf = make([]byte, 65536)
	c.run(func() (p []byte, err error) {
		var n int
		if n, err = nc.Read(buf); err != nil {
			return
		}
		return append([]byte(nil), buf[:n]...), nil
	}, func(p []byte) (err error) {
		_, err = nc.Write(p)
		return
	})
	return
}

// Close listener and all connections
func (f *UDPFactory) Close() (err error) {
	f.lmx.Lock()
	if f.l != nil {
		err = f.l.Close()
	}
	f.lmx.Unlock()
	f.closeAll()
	return
}
