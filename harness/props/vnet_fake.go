//go:build faketime

package props

// In the virtual-time build every TCP connection is an in-memory one: what is
// in flight in the kernel would be invisible to the scheduler that advances
// the clock, and a message could seem to arrive late.

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
)

func init() {
	net.VerifDial = vDial
	net.VerifListen = vListen
}

var (
	vmu        sync.Mutex
	vlisteners = map[int]*vListener{}
	vnextPort  = 20000
)

type vListener struct {
	port int
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func vPort(address string) (int, error) {
	_, p, err := net.SplitHostPort(address)
	if err != nil {
		return 0, err
	}
	return strconv.Atoi(p)
}

func isTCP(network string) bool { return network == "tcp" || network == "tcp4" || network == "tcp6" }

func vListen(network, address string) (net.Listener, bool, error) {
	if !isTCP(network) {
		return nil, false, nil
	}
	port, err := vPort(address)
	if err != nil {
		return nil, true, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	vmu.Lock()
	defer vmu.Unlock()
	for port == 0 {
		vnextPort++
		if vlisteners[vnextPort] == nil {
			port = vnextPort
		}
	}
	if vlisteners[port] != nil {
		return nil, true, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &vListener{port: port, ch: make(chan net.Conn, 1024), done: make(chan struct{})}
	vlisteners[port] = l
	return l, true, nil
}

func (l *vListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}

func (l *vListener) Close() error {
	l.once.Do(func() {
		close(l.done)
		vmu.Lock()
		if vlisteners[l.port] == l {
			delete(vlisteners, l.port)
		}
		vmu.Unlock()
	})
	return nil
}

func (l *vListener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: l.port}
}

func vDial(network, address string) (net.Conn, bool, error) {
	if !isTCP(network) {
		return nil, false, nil
	}
	port, err := vPort(address)
	if err != nil {
		return nil, true, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	vmu.Lock()
	l := vlisteners[port]
	vnextPort++
	cport := vnextPort + 20000
	vmu.Unlock()
	if l == nil {
		return nil, true, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	ca := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: cport}
	sa := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	x, y := newVPipe(), newVPipe()
	x.cap = int(vnetCap.Swap(0))
	c := &vConn{in: x, out: y, local: ca, remote: sa}
	s := &vConn{in: y, out: x, local: sa, remote: ca}
	select {
	case l.ch <- s:
		return c, true, nil
	case <-l.done:
		return nil, true, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
}

// vPipe is one direction of a connection.
type vPipe struct {
	cap     int // bytes in flight until writers wait, 0: unlimited
	mu      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	wclosed bool // the writing end is closed
	rclosed bool // the reading end is closed
	rdl     time.Time
	rtimer  *time.Timer
	wdl     time.Time
	wtimer  *time.Timer
}

func newVPipe() *vPipe {
	p := &vPipe{}
	p.cond = sync.NewCond(&p.mu)
	return p
}

type vConn struct {
	in, out       *vPipe
	local, remote net.Addr
	wmu           sync.Mutex // one Write at a time, as on a real connection
}

func (c *vConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *vConn) Read(b []byte) (int, error) {
	p := c.in
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rclosed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if !p.rdl.IsZero() && !time.Now().Before(p.rdl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			if p.cap > 0 {
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.wclosed {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
}

func (c *vConn) Write(b []byte) (n int, err error) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	p := c.out
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.wclosed:
			return n, c.opErr("write", net.ErrClosed)
		case !p.wdl.IsZero() && !time.Now().Before(p.wdl):
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		case p.rclosed:
			return n, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		k := len(b)
		if p.cap > 0 && k > p.cap-len(p.buf) {
			k = p.cap - len(p.buf)
		}
		if k > 0 || len(b) == 0 {
			p.buf = append(p.buf, b[:k]...)
			b = b[k:]
			n += k
			p.cond.Broadcast()
		}
		if len(b) == 0 {
			return n, nil
		}
		p.cond.Wait()
	}
}

func (c *vConn) CloseWrite() error {
	c.out.mu.Lock()
	c.out.wclosed = true
	c.out.mu.Unlock()
	c.out.cond.Broadcast()
	return nil
}

func (c *vConn) Close() error {
	c.in.mu.Lock()
	was := c.in.rclosed
	c.in.rclosed = true
	c.in.mu.Unlock()
	c.in.cond.Broadcast()
	c.CloseWrite()
	if was {
		return c.opErr("close", net.ErrClosed)
	}
	return nil
}

func (c *vConn) LocalAddr() net.Addr  { return c.local }
func (c *vConn) RemoteAddr() net.Addr { return c.remote }
func (c *vConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *vConn) SetReadDeadline(t time.Time) error {
	p := c.in
	p.mu.Lock()
	p.rdl = t
	if p.rtimer != nil {
		p.rtimer.Stop()
		p.rtimer = nil
	}
	if !t.IsZero() {
		p.rtimer = time.AfterFunc(time.Until(t), p.cond.Broadcast)
	}
	p.mu.Unlock()
	p.cond.Broadcast()
	return nil
}

func (c *vConn) SetWriteDeadline(t time.Time) error {
	p := c.out
	p.mu.Lock()
	p.wdl = t
	if p.wtimer != nil {
		p.wtimer.Stop()
		p.wtimer = nil
	}
	if !t.IsZero() {
		p.wtimer = time.AfterFunc(time.Until(t), p.cond.Broadcast)
	}
	p.mu.Unlock()
	p.cond.Broadcast()
	return nil
}

// the options of a TCP connection that code may set
func (c *vConn) SetNoDelay(bool) error                  { return nil }
func (c *vConn) SetKeepAlive(bool) error                { return nil }
func (c *vConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *vConn) String() string                         { return fmt.Sprintf("%v-%v", c.local, c.remote) }
