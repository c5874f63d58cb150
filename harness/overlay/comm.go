package comm

import (
	"net"

	"github.com/golang/protobuf/proto"
)

// Only names that the package's own tests use appear here.

func VerifToWire(m proto.Message) ([]byte, error)       { return toWire(m) }
func VerifReadWire(c net.Conn) (proto.Message, error)   { return readWire(c) }
func VerifSendWire(m proto.Message, c net.Conn) error   { return sendWire(m, c) }
func VerifHandleConnection(c net.Conn, h VerifHandler)  { handleConnection(c, h) }
func VerifSingleSender(c net.Conn) MessageSender        { return &singleMessageSender{connection: c} }
func VerifAccept(m *VerifMulti, l net.Listener)         { serverConnectionAcceptor(m.mms, l) }
func (v *VerifMulti) Add(c net.Conn)                    { v.mms.AddConn(c) }
func (v *VerifMulti) Del(c net.Conn)                    { v.mms.DelConn(c) }
func (v *VerifMulti) Subscribe(c net.Conn, ch Channel)  { v.mms.Subscribe(c, ch) }
func (v *VerifMulti) SendMessage(m proto.Message) error { return v.mms.SendMessage(m) }

type VerifHandler interface {
	Handle(message proto.Message, sender net.Conn)
}

type VerifMulti struct{ mms *multiMessageSender }

func VerifNewMulti() *VerifMulti {
	return &VerifMulti{&multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}}
}
