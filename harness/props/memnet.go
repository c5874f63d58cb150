package props

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// In-memory connections whose fragmentation, speed, capacity and failures the
// harness controls.

type pipeBuf struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	cap    int // bytes in flight until writers block, 0: unlimited
	closed bool
	err    error // what readers and writers get from now on
}

func newPipeBuf(capacity int) *pipeBuf {
	p := &pipeBuf{cap: capacity}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *pipeBuf) close() {
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
	p.cond.Broadcast()
}

func (p *pipeBuf) fail(err error) {
	p.mu.Lock()
	p.err, p.buf = err, nil
	p.mu.Unlock()
	p.cond.Broadcast()
}

var errMemClosed = errors.New("connection closed (harness)")

func (p *pipeBuf) write(b []byte) (n int, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(b) > 0 {
		for !p.closed && p.err == nil && p.cap > 0 && len(p.buf) >= p.cap {
			p.cond.Wait()
		}
		if p.err != nil {
			return n, p.err
		}
		if p.closed {
			return n, errMemClosed
		}
		k := len(b)
		if p.cap > 0 && k > p.cap-len(p.buf) {
			k = p.cap - len(p.buf)
		}
		p.buf = append(p.buf, b[:k]...)
		b = b[k:]
		n += k
		p.cond.Broadcast()
	}
	return n, nil
}

func (p *pipeBuf) read(b []byte, max int) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 && !p.closed && p.err == nil {
		p.cond.Wait()
	}
	if p.err != nil {
		return 0, p.err
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	if max > 0 && len(b) > max {
		b = b[:max]
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	p.cond.Broadcast()
	return n, nil
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// memConn is one end of a connection.
type memConn struct {
	name   string
	in     *pipeBuf
	out    *pipeBuf
	wmu    sync.Mutex
	smu    sync.Mutex
	writes int
	// onWrite is asked before every write: how long the write takes, how many
	// bytes are accepted at most (0: all), and which error it ends with.
	onWrite func(i int, b []byte) (delay time.Duration, max int, err error)
	// maxRead gives the size limit of the next read (0: none).
	maxRead func() int
	closedC chan struct{}
	once    sync.Once
	wdl     time.Time
}

// memPair makes a connection; capacity limits the bytes in flight from a to b.
func memPair(name string, capAB int) (a, b *memConn) {
	ab, ba := newPipeBuf(capAB), newPipeBuf(0)
	a = &memConn{name: name + "/a", in: ba, out: ab, closedC: make(chan struct{})}
	b = &memConn{name: name + "/b", in: ab, out: ba, closedC: make(chan struct{})}
	return
}

func (c *memConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	max := 0
	if c.maxRead != nil {
		max = c.maxRead()
	}
	return c.in.read(b, max)
}

func (c *memConn) Write(b []byte) (int, error) {
	// as on a real connection, one write at a time
	c.wmu.Lock()
	defer c.wmu.Unlock()
	if c.isClosed() {
		return 0, errMemClosed
	}
	i := c.writes
	c.writes++
	if c.onWrite != nil {
		delay, max, err := c.onWrite(i, b)
		if delay > 0 {
			select {
			case <-time.After(delay):
			case <-c.closedC:
				return 0, errMemClosed
			}
		}
		if err != nil {
			return 0, err
		}
		if max > 0 && max < len(b) {
			b = b[:max]
		}
	}
	c.smu.Lock()
	dl := c.wdl
	c.smu.Unlock()
	if !dl.IsZero() {
		done := make(chan struct{})
		defer close(done)
		go func() {
			select {
			case <-done:
			case <-time.After(time.Until(dl)):
				c.Close()
			}
		}()
	}
	return c.out.write(b)
}

func (c *memConn) isClosed() bool {
	select {
	case <-c.closedC:
		return true
	default:
		return false
	}
}

func (c *memConn) Close() error {
	c.once.Do(func() {
		close(c.closedC)
		c.in.close()
		c.out.close()
	})
	return nil
}

// Reset ends the connection the hard way: the other end gets errors as from a
// TCP connection that was reset, not the end of the data.
func (c *memConn) Reset() {
	err := func(op string) error {
		return &net.OpError{Op: op, Net: "tcp", Source: memAddr("local"), Addr: memAddr(c.name), Err: os.NewSyscallError(op, syscall.ECONNRESET)}
	}
	c.out.fail(err("read"))
	c.in.fail(err("write"))
	c.Close()
}

func (c *memConn) LocalAddr() net.Addr               { return memAddr(c.name) }
func (c *memConn) RemoteAddr() net.Addr              { return memAddr(c.name) }
func (c *memConn) SetDeadline(t time.Time) error     { return c.SetWriteDeadline(t) }
func (c *memConn) SetReadDeadline(t time.Time) error { return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.smu.Lock()
	c.wdl = t
	c.smu.Unlock()
	return nil
}

// memListener hands out connections.
type memListener struct {
	ch   chan net.Conn
	done chan struct{}
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn, 64), done: make(chan struct{})}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errMemClosed
	}
}

func (l *memListener) Close() error   { close(l.done); return nil }
func (l *memListener) Addr() net.Addr { return memAddr("listener") }

// tcpPair makes a real loopback connection.
func tcpPair() (a, b *net.TCPConn, err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	type acc struct {
		c   net.Conn
		err error
	}
	ch := make(chan acc, 1)
	go func() { x, err := l.Accept(); ch <- acc{x, err} }()
	x, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		return nil, nil, err
	}
	y := <-ch
	if y.err != nil {
		return nil, nil, y.err
	}
	return x.(*net.TCPConn), y.c.(*net.TCPConn), nil
}
