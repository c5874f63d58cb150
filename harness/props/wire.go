package props

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"sync"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"
)

// This file is the harness's own implementation of the wire format, written
// from the protocol: 8 byte little-endian length, Envelope{type, zlib data}.

func encodeFrame(m proto.Message) []byte {
	inner, err := proto.Marshal(m)
	if err != nil {
		panic("harness: marshal: " + err.Error())
	}
	return encodeRaw(proto.MessageName(m), inner)
}

func encodeRaw(typ string, inner []byte) []byte {
	var z bytes.Buffer
	w, _ := zlib.NewWriterLevel(&z, zlib.BestSpeed)
	w.Write(inner)
	w.Close()
	return encodeEnvelope(typ, z.Bytes())
}

func encodeEnvelope(typ string, data []byte) []byte {
	env, err := proto.Marshal(&comm.Envelope{Type: typ, Data: data})
	if err != nil {
		panic("harness: marshal envelope: " + err.Error())
	}
	out := make([]byte, 8+len(env))
	binary.LittleEndian.PutUint64(out, uint64(len(env)))
	copy(out[8:], env)
	return out
}

// decodeFrame reads one frame.
func decodeFrame(r io.Reader) (proto.Message, error) {
	var hdr [8]byte
	if _, err := io.ReadFull(r, hdr[:]); err != nil {
		return nil, err
	}
	n := binary.LittleEndian.Uint64(hdr[:])
	if n > 1<<28 {
		return nil, fmt.Errorf("frame of %d bytes", n)
	}
	buf := make([]byte, n)
	if _, err := io.ReadFull(r, buf); err != nil {
		return nil, fmt.Errorf("frame cut: %v", err)
	}
	env := &comm.Envelope{}
	if err := proto.Unmarshal(buf, env); err != nil {
		return nil, fmt.Errorf("bad envelope: %v", err)
	}
	t := proto.MessageType(env.Type)
	if t == nil {
		return nil, fmt.Errorf("unknown type %q", env.Type)
	}
	zr, err := zlib.NewReader(bytes.NewReader(env.Data))
	if err != nil {
		return nil, fmt.Errorf("bad zlib: %v", err)
	}
	inner, err := io.ReadAll(zr)
	if err != nil {
		return nil, fmt.Errorf("bad zlib data: %v", err)
	}
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(inner, m); err != nil {
		return nil, fmt.Errorf("bad inner message: %v", err)
	}
	return m, nil
}

// stamped is a message with its arrival time (timing.GetRawTime).
type stamped struct {
	At  int64
	Msg proto.Message
}

// rawClient is a client of the harness's own making.
type rawClient struct {
	conn net.Conn
	mu   sync.Mutex
	log  []stamped
	err  error
	done chan struct{}
}

func dialRaw(addr string) (*rawClient, error) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return newRawClient(conn), nil
}

func newRawClient(conn net.Conn) *rawClient {
	rc := &rawClient{conn: conn, done: make(chan struct{})}
	go rc.readLoop()
	return rc
}

func (rc *rawClient) readLoop() {
	defer close(rc.done)
	for {
		m, err := decodeFrame(rc.conn)
		rc.mu.Lock()
		if err != nil {
			rc.err = err
			rc.mu.Unlock()
			return
		}
		rc.log = append(rc.log, stamped{timing.GetRawTime(), m})
		rc.mu.Unlock()
	}
}

func (rc *rawClient) send(m proto.Message) error {
	_, err := rc.conn.Write(encodeFrame(m))
	return err
}

func (rc *rawClient) messages() []stamped {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	return append([]stamped{}, rc.log...)
}

func (rc *rawClient) closed() (bool, error) {
	select {
	case <-rc.done:
		rc.mu.Lock()
		defer rc.mu.Unlock()
		return true, rc.err
	default:
		return false, nil
	}
}
