package props

import (
	"math"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

// Shared generators.

var textRunes = []rune("abcxyzABC019 .-_/\\'\"*?[]{}()%$#&;:,|<>~\t\u00e9\u00df\u0416\u65e5\u672c\U0001F600\u0301\u00a0\u2028\ufeff\u007f")

// genText draws valid UTF-8 text.
func genText(t *rapid.T, label string, max int) string {
	return string(rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(textRunes), rapid.SampledFrom(textRunes), rapid.Rune()), 0, max).Draw(t, label))
}

// genI64 draws numbers of every size and sign.
func genI64(t *rapid.T, label string) int64 {
	return rapid.OneOf(rapid.Int64(), rapid.Int64Range(-3, 3), rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, 1 << 53, 1<<32 - 1, 127, 128, 1 << 31})).Draw(t, label)
}

func genU64(t *rapid.T, label string) uint64 {
	return rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 3), rapid.SampledFrom([]uint64{math.MaxUint64, 1 << 63, 127, 128})).Draw(t, label)
}

// genBits draws the bits of a float64, with special values.
func genBits(t *rapid.T, label string) uint64 {
	return rapid.OneOf(
		rapid.Uint64(),
		rapid.SampledFrom([]uint64{0, 1 << 63, math.Float64bits(math.NaN()), 0x7ff8000000000001, 0xfff8000000000000, 0x7ff0000000000001,
			math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), 1, math.Float64bits(1), math.Float64bits(-1), math.Float64bits(0.1)}),
	).Draw(t, label)
}

func floats(bits []uint64) []float64 {
	if bits == nil {
		return nil
	}
	r := make([]float64, len(bits))
	for i, b := range bits {
		r[i] = math.Float64frombits(b)
	}
	return r
}

// Msg is a JSON-serialisable description of a protocol message.
type Msg struct {
	T     string      `json:"t"`
	I     []int64     `json:"i,omitempty"`
	U     uint64      `json:"u,omitempty"`
	V     uint64      `json:"v,omitempty"`
	A     []uint64    `json:"a,omitempty"`
	B     []uint64    `json:"b,omitempty"`
	S     []string    `json:"s,omitempty"`
	Flag  bool        `json:"flag,omitempty"`
	Lines [][]MsgAtom `json:"lines,omitempty"`
}

// MsgAtom is a part of a lyrics line.
type MsgAtom struct {
	T int64  `json:"t"`
	C string `json:"c"`
}

var msgTypes = []string{"tsreq", "tsres", "chunk", "ping", "pong", "vol", "sub", "song", "cinfo", "pause"}

// genMsg draws a message of one of the types.
func genMsg(t *rapid.T, types []string, maxSamples int) Msg {
	m := Msg{T: rapid.SampledFrom(types).Draw(t, "type")}
	i := func() { m.I = append(m.I, genI64(t, "i")) }
	switch m.T {
	case "tsreq":
		i()
	case "tsres":
		i()
		i()
		i()
	case "chunk":
		i()
		i()
		n := rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, maxSamples)).Draw(t, "n")
		if n > 24 {
			// long ones are made from a seed, to keep the cases small
			m.I = append(m.I, int64(n), genI64(t, "seed"))
		} else {
			for k := 0; k < n; k++ {
				m.A = append(m.A, genBits(t, "lo"))
				m.B = append(m.B, genBits(t, "hi"))
			}
		}
		m.U = genU64(t, "first")
	case "vol":
		m.V = genBits(t, "vol")
	case "sub":
		m.I = []int64{rapid.OneOf(rapid.SampledFrom([]int64{0, 1}), rapid.Int64Range(-5, 10)).Draw(t, "ch")}
	case "song":
		m.U = genU64(t, "first")
		i()
		m.S = []string{genText(t, "file", 12)}
		if rapid.Bool().Draw(t, "hasmd") {
			m.S = append(m.S, genText(t, "title", 8), genText(t, "artist", 8), genText(t, "album", 8))
		}
		nl := rapid.IntRange(0, 4).Draw(t, "lines")
		for k := 0; k < nl; k++ {
			l := []MsgAtom{}
			na := rapid.IntRange(0, 3).Draw(t, "atoms")
			for j := 0; j < na; j++ {
				l = append(l, MsgAtom{genI64(t, "ts"), genText(t, "cap", 6)})
			}
			m.Lines = append(m.Lines, l)
		}
	case "cinfo":
		i()
		m.U, m.V = genU64(t, "first"), genU64(t, "size")
	case "pause":
		m.U, m.Flag = genU64(t, "idx"), rapid.Bool().Draw(t, "playing")
	}
	return m
}

// Proto builds the message.
func (m Msg) Proto() proto.Message {
	switch m.T {
	case "tsreq":
		return &comm.TimeSyncRequest{ClientSend: m.I[0]}
	case "tsres":
		return &comm.TimeSyncResponse{ClientSendTime: m.I[0], ServerRecvTime: m.I[1], ServerSendTime: m.I[2]}
	case "chunk":
		a, b := m.A, m.B
		if len(m.I) == 4 {
			n, s := int(m.I[2]), uint64(m.I[3])
			a, b = make([]uint64, n), make([]uint64, n)
			for k := range a {
				s = s*6364136223846793005 + 1442695040888963407
				a[k] = s ^ s>>29
				b[k] = math.Float64bits(float64(k) / 65536)
			}
		}
		return &comm.QueueChunkRequest{StartTime: m.I[0], ChunkId: m.I[1], SampleLow: floats(a), SampleHigh: floats(b), FirstSampleIndex: m.U}
	case "ping":
		return &comm.PingMessage{}
	case "pong":
		return &comm.PongMessage{}
	case "vol":
		return &comm.SetVolumeRequest{Volume: math.Float64frombits(m.V)}
	case "sub":
		return &comm.SubscribeChannelRequest{Channel: comm.Channel(m.I[0])}
	case "song":
		s := &comm.NewSongInfo{FirstSampleOfSongIndex: m.U, SongFileName: m.S[0], SongLength: m.I[0]}
		for _, l := range m.Lines {
			wl := &comm.NewSongInfo_SongLyricsLine{}
			for _, a := range l {
				wl.Atoms = append(wl.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: a.T, Caption: a.C})
			}
			s.Lyrics = append(s.Lyrics, wl)
		}
		if len(m.S) > 1 {
			s.Metadata = &comm.NewSongInfo_SongMetadata{Title: m.S[1], Artist: m.S[2], Album: m.S[3]}
		}
		return s
	case "cinfo":
		return &comm.ChunkInfo{StartTime: m.I[0], FirstSampleIndex: m.U, ChunkSize: m.V}
	case "pause":
		return &comm.PauseInfo{Playing: m.Flag, ToggleSampleIndex: m.U}
	}
	panic("harness: bad message type " + m.T)
}

// canon is the canonical form of a message, for exact comparison.
func canon(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	b, err := proto.Marshal(m)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return proto.MessageName(m) + " " + string(b)
}
