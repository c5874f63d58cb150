package props

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	xssh "golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
	"verif/pbt"
)

// C19: only configured users with the right credential get in.

type c19User struct {
	Name string `json:"name"`
	Pass string `json:"pass"`
	Key  int    `json:"key"`  // 0: none, else key number
	Form string `json:"form"` // of the configured key: "", text, cut, junk, garbage
	Null bool   `json:"null,omitempty"`
	Omit bool   `json:"omit,omitempty"` // leave out what is empty
}

type c19Try struct {
	User string    `json:"user"`
	Auth []c19Auth `json:"auth"`
	Idle bool      `json:"idle,omitempty"` // disconnect in the middle of the handshake instead
	Raw  []byte    `json:"raw,omitempty"`  // only these bytes
	Ms   int       `json:"ms,omitempty"`   // and hang up after that
}

type c19Auth struct {
	How  string `json:"how"` // password, key, stolen, interactive
	Pass string `json:"pass,omitempty"`
	Key  int    `json:"key,omitempty"`
}

type c19Case struct {
	Users []c19User `json:"users"`
	Tries []c19Try  `json:"tries"`
}

const c19Keys = 6

// detReader makes the keys the same in every process.
type detReader struct {
	seed, n uint64
	buf     []byte
}

func (d *detReader) Read(p []byte) (int, error) {
	for i := range p {
		if len(d.buf) == 0 {
			var b [16]byte
			binary.LittleEndian.PutUint64(b[:], d.seed)
			binary.LittleEndian.PutUint64(b[8:], d.n)
			d.n++
			h := sha256.Sum256(b[:])
			d.buf = h[:]
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

var c19Made sync.Map

func c19Signer(k int) xssh.Signer {
	if s, ok := c19Made.Load(k); ok {
		return s.(xssh.Signer)
	}
	var key crypto.Signer
	switch k % 3 {
	case 0:
		seed := make([]byte, 32)
		io.ReadFull(&detReader{seed: uint64(k)}, seed)
		key = ed25519.NewKeyFromSeed(seed)
	case 1:
		key, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	default:
		key, _ = rsa.GenerateKey(rand.Reader, 2048)
	}
	s, err := xssh.NewSignerFromSigner(key)
	if err != nil {
		panic(err)
	}
	c19Made.Store(k, s)
	return s
}

// thief shows one key and signs with another.
type thief struct {
	pub xssh.PublicKey
	xssh.Signer
}

func (t thief) PublicKey() xssh.PublicKey { return t.pub }

var userNames = []string{"admin", "Admin", "ADMIN", "adm", "admin2", "root", "a b", "\u00e4dmin", "a\u0308dmin", "", "admin ", "x", "user\u0000"}
var passwords = []string{"secret", "Secret", "secret ", " secret", "secre", "secrets", "p\u00e4ss", "pa\u0308ss", "x", "x\u0000", "12", "null", "", "", "secret\n", strings.Repeat("long", 300), strings.Repeat("long", 300) + "x", "\t", " "}

func genC19(t *rapid.T) interface{} {
	cs := c19Case{}
	users := rapid.SliceOfNDistinct(rapid.SampledFrom(userNames), 0, 4, func(s string) string { return s }).Draw(t, "users")
	used := []int{1}
	for _, n := range users {
		u := c19User{Name: n, Pass: rapid.SampledFrom(passwords).Draw(t, "password"), Omit: rapid.Bool().Draw(t, "omit"), Null: rapid.IntRange(0, 19).Draw(t, "null") == 0}
		if rapid.IntRange(0, 2).Draw(t, "key?") > 0 {
			// rarely the slow rsa key
			u.Key = rapid.SampledFrom([]int{1, 3, 3, 4, 6, 6, 6, 2}).Draw(t, "key")
			u.Form = rapid.SampledFrom([]string{"", "", "", "", "text", "cut", "junk", "garbage"}).Draw(t, "form")
			used = append(used, u.Key)
		}
		cs.Users = append(cs.Users, u)
	}
	n := rapid.IntRange(1, 6).Draw(t, "tries")
	for i := 0; i < n; i++ {
		y := c19Try{User: rapid.SampledFrom(userNames).Draw(t, "as")}
		var target *c19User
		if len(cs.Users) > 0 && rapid.IntRange(0, 5).Draw(t, "known") > 0 {
			target = &cs.Users[rapid.IntRange(0, len(cs.Users)-1).Draw(t, "user")]
			y.User = target.Name
		}
		switch rapid.IntRange(0, 11).Draw(t, "broken") {
		case 0:
			y.Raw = []byte(rapid.SampledFrom([]string{"", "SSH-", "SSH-2.0-x\r\n", "SSH-1.0-x\r\n", "GET / HTTP/1.0\r\n\r\n", "SSH-2.0-x\r\n\x00\x00\x00\x0c\x0a\x14", "SSH-2.0-x\r\n\xff\xff\xff\xff", "\x00\x00\x00\x00", strings.Repeat("x", 3000)}).Draw(t, "raw"))
			y.Raw = append(y.Raw, rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "more")...)
			y.Ms = rapid.SampledFrom([]int{0, 1, 2000}).Draw(t, "ms")
			if len(y.Raw) == 0 {
				y.Idle = true
			}
		case 1:
			y.Idle = true
			y.Ms = rapid.SampledFrom([]int{0, 1, 2000}).Draw(t, "ms")
		default:
			k := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 0}).Draw(t, "methods")
			for j := 0; j < k; j++ {
				var a c19Auth
				switch rapid.IntRange(0, 9).Draw(t, "how") {
				case 0, 1:
					a = c19Auth{How: "password", Pass: rapid.SampledFrom(passwords).Draw(t, "try")}
				case 2, 3, 4:
					a = c19Auth{How: "password", Pass: rapid.SampledFrom(passwords).Draw(t, "try")}
					if len(cs.Users) > 0 {
						u := cs.Users[rapid.IntRange(0, len(cs.Users)-1).Draw(t, "password of")]
						if target != nil && rapid.Bool().Draw(t, "own") {
							u = *target
						}
						a.Pass = u.Pass
					}
				case 5, 6, 7:
					a = c19Auth{How: "key", Key: rapid.SampledFrom(used).Draw(t, "with")}
					if target != nil && target.Key != 0 && rapid.Bool().Draw(t, "own key") {
						a.Key = target.Key
					}
				case 8:
					a = c19Auth{How: "stolen", Key: rapid.SampledFrom(used).Draw(t, "stolen")}
					if target != nil && target.Key != 0 {
						a.Key = target.Key
					}
				default:
					a = c19Auth{How: "interactive"}
					if target != nil {
						a.Pass = target.Pass
					}
				}
				y.Auth = append(y.Auth, a)
				if a.How == "stolen" { // ends the handshake
					y.Auth = []c19Auth{a}
					break
				}
			}
		}
		cs.Tries = append(cs.Tries, y)
	}
	return cs
}

func (u c19User) configured() []byte {
	b := c19Signer(u.Key).PublicKey().Marshal()
	switch u.Form {
	case "text":
		return xssh.MarshalAuthorizedKey(c19Signer(u.Key).PublicKey())
	case "cut":
		return b[:len(b)-1]
	case "junk":
		return append(append([]byte{}, b...), 0)
	case "garbage":
		return []byte("garbage")
	}
	return b
}

func (cs c19Case) usersFile(own string) []byte {
	m := map[string]interface{}{own: map[string]string{"password": own}}
	for _, u := range cs.Users {
		if u.Null {
			m[u.Name] = nil
			continue
		}
		e := map[string]string{}
		if u.Pass != "" || !u.Omit {
			e["password"] = u.Pass
		}
		if u.Key != 0 {
			e["pubKey"] = base64.StdEncoding.EncodeToString(u.configured())
		} else if !u.Omit {
			e["pubKey"] = ""
		}
		m[u.Name] = e
	}
	b, _ := json.Marshal(m)
	return b
}

func (cs c19Case) allowed(user string, a c19Auth) bool {
	for _, u := range cs.Users {
		if u.Name == user && !u.Null {
			switch a.How {
			case "password":
				return u.Pass != "" && u.Pass == a.Pass
			case "key":
				return u.Key != 0 && u.Key == a.Key && u.Form == ""
			}
		}
	}
	return false
}

func runC19(c *pbt.C, raw json.RawMessage) {
	var cs c19Case
	pbt.Decode(raw, &cs)
	w := newWorld(c)
	defer w.Close()
	w.writeSong(Song{Name: "a.mp3", ID: 1, N: 200000})
	const own = "the harness' own user"
	w.Users = cs.usersFile(own)
	w.startServer(ServerFlags{Rate: 44100, ChunkSize: 4410, StartDelay: 50, Delay: 1000})
	standing, err := w.dialAdmin(own, xssh.Password(own))
	if err != nil {
		c.Failf("refused", "a user with his password is refused: %v", err)
	}
	client := w.dial(comm.Channel_META)
	works := func(a *admin, who string, i int) {
		if out := a.cmd("playlist"); !strings.Contains(out, "Current Playlist (") {
			c.Failf("session", "after try %d, %s is answered %q to playlist", i, who, out)
		}
	}
	var in []*admin
	good, bad := 0, 0
	for i, y := range cs.Tries {
		switch {
		case y.Idle || y.Raw != nil:
			conn, err := net.Dial("tcp", w.SSHAddr)
			if err != nil {
				c.Failf("dial", "try %d: the ssh port does not accept: %v", i, err)
			}
			conn.Write(y.Raw)
			if y.Ms > 0 {
				time.Sleep(time.Duration(y.Ms) * time.Millisecond)
			}
			if y.Ms < 1000 { // else it stays there
				conn.Close()
			}
			c.Class("broken login")
		default:
			var auth []xssh.AuthMethod
			want := false
			for _, a := range y.Auth {
				a := a
				want = want || cs.allowed(y.User, a)
				switch a.How {
				case "password":
					auth = append(auth, xssh.Password(a.Pass))
				case "key":
					auth = append(auth, xssh.PublicKeys(c19Signer(a.Key)))
				case "stolen":
					auth = append(auth, xssh.PublicKeys(thief{c19Signer(a.Key).PublicKey(), c19Signer(a.Key + 3)}))
				case "interactive":
					auth = append(auth, xssh.KeyboardInteractive(func(_, _ string, q []string, _ []bool) ([]string, error) {
						r := make([]string, len(q))
						for i := range r {
							r[i] = a.Pass
						}
						return r, nil
					}))
				}
			}
			// the client uses the first method of each kind only
			want = false
			seen := map[string]bool{}
			for _, a := range y.Auth {
				kind := a.How
				if kind == "stolen" {
					kind = "key"
				}
				if !seen[kind] {
					want = want || cs.allowed(y.User, a)
				}
				seen[kind] = true
			}
			a, err := w.dialAdmin(y.User, auth...)
			if (err == nil) != want {
				c.Failf(map[bool]string{true: "let-in", false: "refused"}[err == nil], "users file %s: try %d, user %q with %+v: login error %v, should it succeed: %v", w.Users, i, y.User, y.Auth, err, want)
			}
			if err == nil {
				good++
				c.Class("let in: " + y.Auth[0].How)
				in = append(in, a)
				works(a, "the new session", i)
			} else {
				bad++
				if len(y.Auth) > 0 {
					c.Class("refused: " + y.Auth[0].How)
				} else {
					c.Class("refused: none")
				}
			}
		}
		works(standing, "another session", i)
		for _, a := range in {
			works(a, "an earlier session", i)
		}
	}
	if out := standing.cmd("volume 0.25"); !strings.Contains(out, "setting volume to 0.250") {
		c.Failf("session", "after the logins volume is answered %q", out)
	}
	time.Sleep(20 * time.Millisecond)
	if v := lastVolume(client.messages()); v == nil || *v != 0.25 {
		c.Failf("session", "after the logins a client does not get the volume")
	}
	if good+bad > 0 && len(cs.Users) > 1 || good > 0 && bad > 0 {
		c.NonTrivial()
	}
	_ = fmt.Sprint
}

func init() {
	pbt.Register(pbt.Property{ID: "C19", Targets: []pbt.Target{
		{Name: "logins", Mode: pbt.Fake, Gen: genC19, Run: runC19, Quick: 4000, Thorough: 400000,
			Rule: "users files of up to four users with passwords and/or keys, missing, empty, null and undecodable; real ssh handshakes with own, other users', similar and empty passwords, own, other and stolen keys (wrong signature), keyboard-interactive, none and combinations, broken handshakes; the outcome is compared with the users file and standing sessions and clients must go on; non-trivial: several users, or both outcomes"},
	}})
}
