package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	infoermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-infoer"
	playermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-player"
	servermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-server"
	"github.com/LogicalOverflow/music-sync/comm"
	log "github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/timing"
	xssh "golang.org/x/crypto/ssh"

	"verif/pbt"
)

var _ = infoermain.VerifMain
var _ = playermain.VerifMain

// World is one simulated installation: the real server program in this
// process, in virtual time, with clients and admin sessions over loopback.
type World struct {
	c       *pbt.C
	dir     string // scratch
	Audio   string
	Addr    string
	SSHAddr string
	ip      string
	Users   []byte // users file, if not the usual one
	T0      int64  // raw time when the server program was started
	clients []*rawClient
}

func quietLogs() {
	log.OutputWriter = io.Discard
	log.ErrorWriter = io.Discard
	log.DefaultCutoffLevel = log.LevelTrace
}

// keepAlive lets virtual time advance when everything else is blocked.
func keepAlive() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
		}
	}()
}

func newWorld(c *pbt.C) *World {
	quietLogs()
	keepAlive()
	dir, err := os.MkdirTemp("", "world")
	if err != nil {
		c.Harnessf("%v", err)
	}
	pid := os.Getpid()
	w := &World{c: c, dir: dir, Audio: filepath.Join(dir, "music")}
	w.ip = fmt.Sprintf("127.%d.%d.%d", 10+(pid>>15)%200, (pid>>7)&255, 1+pid&127)
	w.Addr = w.ip + ":13333"
	w.SSHAddr = w.ip + ":13334"
	os.MkdirAll(w.Audio, 0o755)
	return w
}

// Close removes the scratch directory.
func (w *World) Close() { os.RemoveAll(w.dir) }

// Song describes a synthetic song file.
type Song struct {
	Name   string `json:"name"`
	ID     int    `json:"id"`
	N      int    `json:"n"`
	Len    int    `json:"len,omitempty"`
	OpenMs int    `json:"open_ms,omitempty"`
	Fail   bool   `json:"fail,omitempty"`
	Gone   bool   `json:"gone,omitempty"` // not on disk at all
	Bad    string `json:"bad,omitempty"`  // what becomes of it once it is in the playlist: gone, dir, empty, garbage, link, loop, cutmp3
}

func (w *World) writeSong(s Song) {
	if s.Gone {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"id": s.ID, "n": s.N, "len": s.Len, "open_ms": s.OpenMs, "fail": s.Fail})
	p := filepath.Join(w.Audio, s.Name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, append([]byte("SYNSONG1 "), b...), 0o644); err != nil {
		w.c.Harnessf("%v", err)
	}
}

// spoil makes an unplayable song what it is after it was queued.
func (w *World) spoil(s Song) {
	p := filepath.Join(w.Audio, s.Name)
	if s.Bad == "" || s.Gone {
		return
	}
	os.RemoveAll(p)
	var err error
	switch s.Bad {
	case "dir":
		err = os.Mkdir(p, 0o755)
	case "empty":
		err = os.WriteFile(p, nil, 0o644)
	case "garbage":
		b := make([]byte, 3000)
		for i := range b {
			b[i] = byte(i * i * 7)
		}
		err = os.WriteFile(p, b, 0o644)
	case "link":
		err = os.Symlink("nowhere", p)
	case "loop":
		err = os.Symlink(s.Name, p)
	case "cutmp3":
		err = os.WriteFile(p, []byte("ID3\x03\x00\x00\x00\x00\x0fTIT2"), 0o644)
	}
	if err != nil {
		w.c.Harnessf("%v", err)
	}
}

// unspoil makes it a file again, which cannot be decoded but queued.
func (w *World) unspoil(s Song) {
	if s.Bad != "" && !s.Gone {
		os.RemoveAll(filepath.Join(w.Audio, s.Name))
		w.writeSong(s)
	}
}

// ServerFlags are the server's flags, in the units the sims use.
type ServerFlags struct {
	Rate       int `json:"rate"`
	ChunkSize  int `json:"chunk"`
	Nan        int `json:"nan"`
	StartDelay int `json:"start_ms"`
	Delay      int `json:"delay_ms"`
}

func (f ServerFlags) chunkDur() time.Duration {
	return time.Duration(f.ChunkSize) * time.Second / time.Duration(f.Rate)
}

const adminUser, adminPass = "admin", "secret pass"

// startServer runs the real server main.
func (w *World) startServer(f ServerFlags) {
	users := filepath.Join(w.dir, "users.json")
	b, _ := json.Marshal(map[string]interface{}{adminUser: map[string]string{"password": adminPass}})
	if w.Users != nil {
		b = w.Users
	}
	os.WriteFile(users, b, 0o600)
	priv, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	der, err := x509.MarshalECPrivateKey(priv)
	if err != nil {
		w.c.Harnessf("host key: %v", err)
	}
	blk := &pem.Block{Type: "EC PRIVATE KEY", Bytes: der}
	key := filepath.Join(w.dir, "id")
	os.WriteFile(key, pem.EncodeToMemory(blk), 0o600)
	os.Args = []string{"music-sync-server", "--address", w.ip, "--port", "13333", "--music-dir", w.Audio,
		"--ssh-address", w.ip, "--ssh-port", "13334", "--users-file", users, "--host-key", key,
		"--sample-rate", fmt.Sprint(f.Rate), "--stream-chunk-size", fmt.Sprint(f.ChunkSize),
		"--song-break-size", fmt.Sprint(f.Nan),
		"--stream-start-delay", fmt.Sprintf("%dms", f.StartDelay), "--stream-delay", fmt.Sprintf("%dms", f.Delay)}
	w.T0 = timing.GetRawTime()
	go servermain.VerifMain()
	time.Sleep(time.Millisecond)
	conn, err := net.Dial("tcp", w.Addr)
	for i := 0; i < 5000 && err != nil; i++ {
		time.Sleep(time.Millisecond)
		conn, err = net.Dial("tcp", w.Addr)
	}
	if err != nil {
		w.c.Harnessf("server did not come up: %v", err)
	}
	conn.Close()
}

func (w *World) now() int64 { return timing.GetRawTime() - w.T0 }

// sleepUntil sleeps until ms after server start.
func (w *World) sleepUntil(ms int) {
	d := int64(ms)*1e6 - w.now()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// vnetCap is the number of bytes the network holds on the way to the client
// that connects next (0: unlimited; virtual time only).
var vnetCap atomic.Int64

// dialQuiet connects a client that reads nothing by itself.
func (w *World) dialQuiet(capacity int, channels ...comm.Channel) net.Conn {
	vnetCap.Store(int64(capacity))
	conn, err := net.Dial("tcp", w.Addr)
	if err != nil {
		w.c.Failf("dial", "a client cannot connect: %v", err)
	}
	for _, ch := range channels {
		conn.Write(encodeFrame(&comm.SubscribeChannelRequest{Channel: ch}))
	}
	return conn
}

func (w *World) dial(channels ...comm.Channel) *rawClient {
	rc, err := dialRaw(w.Addr)
	if err != nil {
		w.c.Failf("dial", "a client cannot connect: %v", err)
	}
	w.clients = append(w.clients, rc)
	for _, ch := range channels {
		rc.send(&comm.SubscribeChannelRequest{Channel: ch})
	}
	return rc
}

// admin is an interactive ssh session.
type admin struct {
	w    *World
	cl   *xssh.Client
	sess *xssh.Session
	in   io.WriteCloser
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
}

func (w *World) admin() *admin {
	a, err := w.dialAdmin(adminUser, xssh.Password(adminPass))
	if err != nil {
		w.c.Failf("ssh", "admin cannot log in: %v", err)
	}
	return a
}

func (w *World) dialAdmin(user string, auth ...xssh.AuthMethod) (*admin, error) {
	return w.dialTerminal(4000, user, auth...)
}

// dialTerminal logs in with a terminal of the given width.
func (w *World) dialTerminal(width int, user string, auth ...xssh.AuthMethod) (*admin, error) {
	cfg := &xssh.ClientConfig{User: user, Auth: auth, HostKeyCallback: xssh.InsecureIgnoreHostKey()}
	cl, err := xssh.Dial("tcp", w.SSHAddr, cfg)
	if err != nil {
		return nil, err
	}
	a := &admin{w: w, cl: cl, done: make(chan struct{})}
	if a.sess, err = cl.NewSession(); err != nil {
		return nil, err
	}
	a.in, _ = a.sess.StdinPipe()
	out, _ := a.sess.StdoutPipe()
	if err := a.sess.RequestPty("xterm", 50, width, xssh.TerminalModes{}); err != nil {
		return nil, err
	}
	if err := a.sess.Shell(); err != nil {
		return nil, err
	}
	go func() {
		defer close(a.done)
		b := make([]byte, 65536)
		for {
			n, err := out.Read(b)
			a.mu.Lock()
			a.out.Write(b[:n])
			a.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	time.Sleep(5 * time.Millisecond)
	a.take()
	return a, nil
}

func (a *admin) take() string {
	a.mu.Lock()
	defer a.mu.Unlock()
	s := a.out.String()
	a.out.Reset()
	return s
}

// raw types bytes and returns what the terminal shows within 5ms of virtual time.
func (a *admin) raw(s string) string {
	a.take()
	a.in.Write([]byte(s))
	time.Sleep(5 * time.Millisecond)
	return a.take()
}

// cmd runs one command line and returns its output, without echo and prompts.
func (a *admin) cmd(line string) string {
	return cleanTerminal(a.raw(line+"\r"), line)
}

// cleanTerminal removes escape sequences, echo and prompts.
func cleanTerminal(s, line string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] < '@' || s[j] > '~') {
				j++
			}
			if j < len(s) && s[j] == 'J' {
				b.WriteByte('\x00') // redraw mark
			}
			i = j + 1
			continue
		}
		if s[i] == '\r' || s[i] == '\b' || s[i] == '\a' {
			i++
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// programs in this process end with it
var _ = sort.Ints
