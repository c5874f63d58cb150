package props

import (
	"fmt"
	"net"
	"os"
	"sync"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/gdamore/tcell"
	"github.com/golang/protobuf/proto"
	"github.com/hajimehoshi/oto"
	"time"

	infoermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-infoer"
	playermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-player"
	"verif/pbt"
)

// fakeServer is a server of the harness for the real client programs.
type fakeServer struct {
	c    *pbt.C
	l    net.Listener
	mu   sync.Mutex
	cons []*fsConn
	on   func(*fsConn, proto.Message)
}

type fsConn struct {
	net.Conn
	mu   sync.Mutex
	subs map[comm.Channel]bool
}

func (f *fsConn) send(m proto.Message) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Conn.Write(encodeFrame(m))
}

func procIP() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 10+(pid>>15)%200, (pid>>7)&255, 1+pid&127)
}

// newFakeServer listens; on is called for every message, in its own goroutine.
func newFakeServer(c *pbt.C, on func(*fsConn, proto.Message)) *fakeServer {
	l, err := net.Listen("tcp", procIP()+":0")
	if err != nil {
		c.Harnessf("%v", err)
	}
	fs := &fakeServer{c: c, l: l, on: on}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			fc := &fsConn{Conn: conn, subs: map[comm.Channel]bool{}}
			fs.mu.Lock()
			fs.cons = append(fs.cons, fc)
			fs.mu.Unlock()
			go func() {
				for {
					m, err := decodeFrame(conn)
					if err != nil {
						return
					}
					if s, ok := m.(*comm.SubscribeChannelRequest); ok {
						fc.mu.Lock()
						fc.subs[s.Channel] = true
						fc.mu.Unlock()
					}
					if fs.on != nil {
						go fs.on(fc, m)
					}
				}
			}()
		}
	}()
	return fs
}

func (f *fakeServer) port() int { return f.l.Addr().(*net.TCPAddr).Port }

func (f *fakeServer) conns() []*fsConn {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*fsConn{}, f.cons...)
}

// subscriber waits (virtual) until a client subscribed to ch.
func (f *fakeServer) subscriber(ch comm.Channel) *fsConn {
	for i := 0; i < 2000; i++ {
		for _, c := range f.conns() {
			c.mu.Lock()
			ok := c.subs[ch]
			c.mu.Unlock()
			if ok {
				return c
			}
		}
		time.Sleep(time.Millisecond)
	}
	f.c.Failf("no-subscription", "the client did not subscribe to %v within 2s", ch)
	return nil
}

// device is the simulated sound card: it takes each buffer when the one
// before has been played completely.
type device struct {
	mu     sync.Mutex
	rate   int
	writes []devWrite
	free   int64
	now    func() int64
}

type devWrite struct {
	at  int64 // when the buffer was handed over (raw time)
	buf []byte
}

// startDevice installs the device. Writes block like a device with one buffer of latency.
func startDevice(rate int, now func() int64) *device {
	d := &device{rate: rate, now: now}
	oto.Sink = func(b []byte) {
		d.mu.Lock()
		d.writes = append(d.writes, devWrite{now(), append([]byte{}, b...)})
		d.mu.Unlock()
		time.Sleep(time.Duration(len(b)/4) * time.Second / time.Duration(d.rate))
	}
	return d
}

func (d *device) snapshot() []devWrite {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]devWrite{}, d.writes...)
}

// startPlayer runs the real player program.
func startPlayer(ip string, port, rate int) {
	os.Args = []string{"music-sync-player", "--address", ip, "--port", fmt.Sprint(port), "--sample-rate", fmt.Sprint(rate)}
	go playermain.VerifMain()
	time.Sleep(time.Microsecond)
}

// startInfoer runs the real display program on a simulated screen.
func startInfoer(ip string, port, rate, w, h, lyrics int) tcell.SimulationScreen {
	s := tcell.NewSimulationScreen("UTF-8")
	tcell.HarnessScreen = s
	os.Args = []string{"music-sync-infoer", "--address", ip, "--port", fmt.Sprint(port), "--sample-rate", fmt.Sprint(rate), "--lyrics-history-size", fmt.Sprint(lyrics)}
	go infoermain.VerifMain()
	time.Sleep(time.Microsecond)
	s.SetSize(w, h) // the program has initialised the screen
	s.PostEvent(tcell.NewEventResize(w, h))
	return s
}

var _ = schedule.SampleRate
