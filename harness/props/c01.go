package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/faiface/beep/mp3"
	"github.com/golang/protobuf/proto"
	"github.com/hajimehoshi/oto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// The real player program against a server of the harness, with a simulated
// sound card, in virtual time. Every sample names itself.

type c01Chunk struct {
	Start int64 `json:"start_us"` // due time relative to the stream's base
	First int   `json:"first"`    // index of the first sample
	N     int   `json:"n"`
	Send  int   `json:"send_us"` // when it is sent, relative to the base
	// values only the left (more than 0) or the right channel has
	Uneven int `json:"uneven,omitempty"`
	// messages without meaning for a player that come before it
	Stray []int `json:"stray,omitempty"`
}

// c01Stray are messages which change nothing about what is played.
func c01Stray(kind int, st int64) proto.Message {
	switch kind {
	case 0:
		return &comm.PongMessage{}
	case 1:
		return &comm.NewSongInfo{FirstSampleOfSongIndex: 3, SongFileName: "x.mp3", SongLength: 77}
	case 2:
		return &comm.PauseInfo{ToggleSampleIndex: 1, Playing: true}
	case 3:
		return &comm.ChunkInfo{StartTime: st, FirstSampleIndex: 5, ChunkSize: 9}
	case 4:
		return &comm.TimeSyncRequest{ClientSend: 1}
	case 5:
		return &comm.SubscribeChannelRequest{Channel: comm.Channel_META}
	case 6:
		return &comm.QueueChunkRequest{StartTime: st, ChunkId: 1}
	case 7:
		return &comm.QueueChunkRequest{StartTime: st, ChunkId: 1, SampleLow: []float64{0.5, 0.5}}
	}
	return &comm.PingMessage{}
}

type c01Case struct {
	Rate   int        `json:"rate"`
	Skew   int64      `json:"skew"`
	OpenMs int        `json:"open_ms"` // time the sound card takes to open
	Audio  []int      `json:"audio"`   // lengths of alternating silence and audio runs, silence first
	Chunks []c01Chunk `json:"chunks"`
	Marker bool       `json:"marker"` // the last chunk is one added silence marker
	Tail   int        `json:"tail_ms"`
}

func genC01(t *rapid.T) interface{} {
	cs := c01Case{Rate: rapid.SampledFrom([]int{1000, 1000, 2000, 1024, 3700, 8000}).Draw(t, "rate"),
		Skew: rapid.OneOf(rapid.Int64Range(-1e7, 1e7), rapid.Int64Range(-1e15, 1e15)).Draw(t, "skew"),
		Tail: rapid.IntRange(0, 1500).Draw(t, "tail")}
	if rapid.IntRange(0, 3).Draw(t, "slowopen") == 0 {
		cs.OpenMs = rapid.IntRange(1, 700).Draw(t, "open")
	}
	maxRuns, maxRunC := 5, 3*cs.Rate
	if rapid.IntRange(0, 24).Draw(t, "real") == 0 { // the rates really used; samples do not last whole ns
		cs.Rate = rapid.SampledFrom([]int{44100, 44100, 48000, 22050, 96000}).Draw(t, "realrate")
		maxRuns, maxRunC = 2, min(3*cs.Rate, 250_000)
	}
	n := rapid.IntRange(1, maxRuns).Draw(t, "runs")
	total := 0
	for i := 0; i < n; i++ {
		sil := rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, cs.Rate/2), rapid.IntRange(1, 2*cs.Rate)).Draw(t, "sil")
		if i == 0 && rapid.Bool().Draw(t, "nosil") {
			sil = 0
		}
		au := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, cs.Rate/2), rapid.IntRange(1, 3*cs.Rate)).Draw(t, "audio")
		cs.Audio = append(cs.Audio, sil, au)
		total += sil + au
	}
	if rapid.Bool().Draw(t, "endsilence") {
		sil := rapid.IntRange(1, cs.Rate).Draw(t, "sil")
		cs.Audio = append(cs.Audio, sil)
		total += sil
	}
	isAudio := c01Map(cs.Audio)
	// cut into chunks
	maxC := rapid.SampledFrom([]int{cs.Rate / 10, cs.Rate / 2, cs.Rate, maxRunC}).Draw(t, "maxchunk")
	fixed := 0
	if rapid.Bool().Draw(t, "fixed") {
		fixed = rapid.IntRange(maxC/4+1, maxC).Draw(t, "fixedsize")
	}
	lead := rapid.SampledFrom([]int{400_000, 1_000_000, 3_000_000}).Draw(t, "lead")
	start, gaps := int64(0), int64(0)
	lastSend := math.MinInt32
	for at := 0; at < total; {
		k := fixed
		if k == 0 {
			k = rapid.OneOf(rapid.IntRange(1, maxC), rapid.IntRange(1, 5)).Draw(t, "chunk")
		}
		if len(cs.Chunks) > 40 {
			k = 250_000
		}
		if k > total-at {
			k = total - at
		}
		// a time gap only next to a silence marker
		if at > 0 && (!isAudio[at] || !isAudio[at-1]) && rapid.IntRange(0, 3).Draw(t, "gap") == 0 {
			gaps += int64(rapid.IntRange(1, 700_000).Draw(t, "gapus"))
			start = gaps + int64(at)*1e6/int64(cs.Rate)
		}
		send := int(start) - lead
		switch rapid.IntRange(0, 7).Draw(t, "delivery") {
		case 0:
			send = int(start) - 300_000 // just in time
		case 1: // burst with the one before
			if lastSend != math.MinInt32 {
				send = lastSend
			}
		case 2:
			send = int(start) - 300_000 - rapid.IntRange(0, 4_000_000).Draw(t, "ahead")
		case 3: // late, only after silence
			if at == 0 || !isAudio[at-1] {
				send = int(start) + rapid.IntRange(-300_000, 2_500_000).Draw(t, "late")
			}
		}
		// the network keeps the order
		if send < lastSend {
			send = lastSend
		}
		lastSend = send
		cs.Chunks = append(cs.Chunks, c01Chunk{Start: start, First: at, N: k, Send: send})
		at += k
		start = gaps + int64(at)*1e6/int64(cs.Rate)
	}
	// a chunk that continues audio must arrive in time, or else the run before is cut short of it
	out := cs.Chunks[:0]
	for i, ch := range cs.Chunks {
		if i > 0 && isAudio[ch.First-1] {
			p := cs.Chunks[i-1]
			if int64(ch.Send) > p.Start+int64(p.N)*1e6/int64(cs.Rate)-300_000 {
				break
			}
		}
		out = append(out, ch)
	}
	// the stream ends with a silence marker (the real one never ends)
	l := out[len(out)-1]
	if e := l.First + l.N; isAudio[e-1] {
		cs.Marker = true
		out = append(out, c01Chunk{Start: l.Start + int64(l.N)*1e6/int64(cs.Rate), First: e, N: 1, Send: l.Send})
	}
	if rapid.IntRange(0, 4).Draw(t, "odd") == 0 {
		for i := range out {
			if rapid.IntRange(0, 2).Draw(t, "uneven") == 0 {
				out[i].Uneven = rapid.IntRange(-5, 5).Draw(t, "by")
			}
			if rapid.IntRange(0, 2).Draw(t, "strays") == 0 {
				out[i].Stray = rapid.SliceOfN(rapid.IntRange(0, 8), 1, 3).Draw(t, "stray")
			}
		}
	}
	cs.Chunks = out
	return cs
}

func c01Map(runs []int) []bool {
	var m []bool
	for i, n := range runs {
		for j := 0; j < n; j++ {
			m = append(m, i%2 == 1)
		}
	}
	return m
}

func runC01(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c01Case
	pbt.Decode(raw, &cs)
	schedule.TimeSyncCycles = 2
	schedule.TimeSyncCycleDelay = time.Millisecond
	schedule.TimeSyncInterval = time.Hour
	oto.OpenDelay = time.Duration(cs.OpenMs) * time.Millisecond
	fs := newFakeServer(c, func(fc *fsConn, m proto.Message) {
		if r, ok := m.(*comm.TimeSyncRequest); ok {
			now := timing.GetRawTime() + cs.Skew
			fc.send(&comm.TimeSyncResponse{ClientSendTime: r.ClientSend, ServerRecvTime: now, ServerSendTime: now})
		}
	})
	dev := startDevice(cs.Rate, timing.GetRawTime)
	startPlayer(procIP(), fs.port(), cs.Rate)
	time.Sleep(20 * time.Millisecond)
	conn := fs.subscriber(comm.Channel_AUDIO)
	conn.send(&comm.SetVolumeRequest{Volume: 1})
	time.Sleep(time.Millisecond)
	isAudio := c01Map(cs.Audio)
	minSend := 0
	for _, ch := range cs.Chunks {
		if ch.Send < minSend {
			minSend = ch.Send
		}
	}
	base := timing.GetRawTime() + int64(-minSend)*1000 // raw time of the stream's base
	type due struct {
		at   int64 // raw time
		must bool
	}
	dues := map[int]due{}
	end := base
	period := int64(time.Second) / int64(cs.Rate)
	const buffer = 100_000_000
	for i, ch := range cs.Chunks {
		if d := base + int64(ch.Send)*1000 - timing.GetRawTime(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		now := timing.GetRawTime()
		low, high := make([]float64, ch.N), make([]float64, ch.N)
		st := base + ch.Start*1000
		for j := range low {
			k := ch.First + j
			if ch.First+ch.N > len(isAudio) || i == len(cs.Chunks)-1 && cs.Marker || !isAudio[k] {
				low[j], high[j] = math.NaN(), math.NaN()
				continue
			}
			s := mp3.SynSample(i%4000, j)
			low[j], high[j] = s[0], s[1]
			at := st + int64(j)*int64(time.Second)/int64(cs.Rate)
			dues[i<<20|j] = due{at, at-now >= 2*buffer+5_000_000}
		}
		if e := st + int64(ch.N)*period; e > end {
			end = e
		}
		for k := 0; k < ch.Uneven; k++ {
			low = append(low, 0.25)
		}
		for k := 0; k > ch.Uneven; k-- {
			high = append(high, 0.25)
		}
		for _, k := range ch.Stray {
			conn.send(c01Stray(k, st+cs.Skew))
			c.Count("stray messages", 1)
		}
		conn.send(&comm.QueueChunkRequest{StartTime: st + cs.Skew, ChunkId: int64(i), SampleLow: low, SampleHigh: high, FirstSampleIndex: uint64(ch.First)})
	}
	end += int64(cs.Tail)*1e6 + 5*buffer
	if d := end - timing.GetRawTime(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	// judge
	seen := map[int]bool{}
	late := false
	for _, w := range dev.snapshot() {
		for j := 0; j+3 < len(w.buf); j += 4 {
			l := int16(uint16(w.buf[j]) | uint16(w.buf[j+1])<<8)
			r := int16(uint16(w.buf[j+2]) | uint16(w.buf[j+3])<<8)
			if l == 0 && r == 0 {
				continue
			}
			at := w.at + int64(j/4)*int64(time.Second)/int64(cs.Rate)
			id, i := mp3.SynIdent([2]float64{float64(l) / 32768, float64(r) / 32768})
			d, ok := dues[id<<20|i]
			if !ok {
				c.Failf("foreign", "at %v the device got (%d, %d), which is no scheduled sample", time.Duration(at-base), l, r)
			}
			if seen[id<<20|i] {
				c.Failf("repeated", "sample %d of chunk %d is played twice", i, id)
			}
			seen[id<<20|i] = true
			if e := at - d.at; e > period+2000 || -e > period+2000 {
				c.Failf("shifted", "sample %d of chunk %d is played %v off its time (period %v)", i, id, time.Duration(e), time.Duration(period))
			}
		}
	}
	var missing []int
	must := 0
	for k, d := range dues {
		if d.must {
			must++
			if !seen[k] {
				missing = append(missing, k)
			}
		} else {
			late = true
		}
	}
	if len(missing) > 0 {
		sort.Ints(missing)
		k := missing[0]
		c.Failf("dropped", "%d of %d samples are not played, first sample %d of chunk %d, due at %v", len(missing), len(dues), k&(1<<20-1), k>>20, time.Duration(dues[k].at-base))
	}
	if must > 0 && len(cs.Chunks) > 1 {
		c.NonTrivial()
	}
	if late {
		c.Class("late audio")
	}
	if cs.OpenMs > 0 {
		c.Class("slow device")
	}
	if len(cs.Audio) > 2 {
		c.Class("several runs")
	}
	c.Class(fmt.Sprintf("rate %d", cs.Rate))
}

func init() {
	pbt.Register(pbt.Property{ID: "C01", Targets: []pbt.Target{
		{Name: "player-output", Mode: pbt.Fake, Gen: genC01, Run: runC01, Quick: 5000, Thorough: 300000,
			Rule: "the real player with a simulated sound card gets 1-5 runs of audio between silence markers, cut into chunks of 1 sample to 3 s, delivered early, just in time, in bursts, or late after silence, with time gaps next to markers, any clock difference and a slow sound card, sometimes channels of unequal length (the samples in both count) and messages that mean nothing to a player: every sample output must be a scheduled one, at its time within one period, once; every sample received 0.2 s ahead must be output; non-trivial: several chunks"},
	}})
}
