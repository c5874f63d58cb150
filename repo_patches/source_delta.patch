From b8a2be764cedb1a08c8f15476182949c6291bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 01/51] fix: removing the song at the position right behind the
 playlist's end panicked instead of being clipped

---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From fa15f4889fc32892ec4b1049cef857d63540b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 02/51] fix: the timed sample queue could lose a wake-up and
 block Len behind waiting adders or removers

The condition's lock did not cover the changes of head and tail, so a
Broadcast between the check and the Wait of the other side was lost and the
player hung for ever. All state is guarded by the condition's lock now.
---
 playback/timed_sample_queue.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..8dafca9 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -7,14 +7,12 @@ type timedSampleQueue struct {
 	head   int
 	tail   int
 
-	cond      *sync.Cond
-	headMutex sync.RWMutex
-	tailMutex sync.RWMutex
+	cond *sync.Cond
 }
 
 func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
-	q.headMutex.Lock()
-	defer q.headMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotFull()
 
@@ -25,8 +23,8 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
-	q.tailMutex.Lock()
-	defer q.tailMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -38,8 +36,8 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -48,10 +46,8 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
@@ -75,19 +71,15 @@ func (q *timedSampleQueue) empty() bool {
 }
 
 func (q *timedSampleQueue) waitNotFull() {
-	q.cond.L.Lock()
 	for q.full() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func (q *timedSampleQueue) waitNotEmpty() {
-	q.cond.L.Lock()
 	for q.empty() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func newTimedSampleQueue(size int) *timedSampleQueue {
-- 
2.43.0


From f8b5c176f73c6b9ab38e8e3691a5fd742e514e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 03/51] fix: a sample of exactly +1.0 wrapped around to
 negative full scale in the PCM output

---
 playback/playback.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 4012462..d5af607 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -139,13 +140,14 @@ func samplesToAudioBuf(samples [][2]float64, buf []byte) {
 }
 
 func convertSampleToBytes(val float64) (low, high byte) {
-	if val < -1 {
-		val = -1
+	val *= 1 << 15
+	if val < math.MinInt16 {
+		val = math.MinInt16
 	}
-	if val > +1 {
-		val = +1
+	if val > math.MaxInt16 {
+		val = math.MaxInt16
 	}
-	valInt16 := int16(val * (1 << 15))
+	valInt16 := int16(val)
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From 08b6e15e2935dd12c59f62968fa2f5c05d7034cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 04/51] fix: queuing a chunk blocked while the player's sample
 queue was full

---
 playback/streamer.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..8eb6966 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -80,22 +80,29 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
-		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
-				tms.samples.Add(s, st+tms.samplesDuration(i))
-			}
-			tms.chunksMutex.RUnlock()
-			tms.chunksMutex.Lock()
-			tms.chunks = tms.chunks[1:]
-			tms.chunksMutex.Unlock()
-		} else {
+		chunk := tms.nextChunk()
+		if chunk == nil {
 			time.Sleep(time.Millisecond)
+			continue
+		}
+		for i, s := range chunk.samples {
+			tms.samples.Add(s, chunk.startTime+tms.samplesDuration(i))
 		}
 	}
 }
 
+// nextChunk removes the first queued chunk and returns it or nil, if there is none.
+func (tms *timedMultiStreamer) nextChunk() *queuedChunk {
+	tms.chunksMutex.Lock()
+	defer tms.chunksMutex.Unlock()
+	if len(tms.chunks) == 0 {
+		return nil
+	}
+	chunk := tms.chunks[0]
+	tms.chunks = tms.chunks[1:]
+	return chunk
+}
+
 func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 	return int64(tms.format.SampleRate.D(n) / time.Nanosecond)
 }
-- 
2.43.0


From 057a152869b7362595f866990d88eb32110e55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 05/51] fix: players cut up to 0.2 s off the start of the audio
 after silence and stopped their output when only silence markers were queued

---
 playback/streamer.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 8eb6966..48565ff 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -39,8 +39,10 @@ func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
 		samples = samples[n:]
 		if drained {
 			tms.syncing = !tms.syncing
-			_, t := tms.samples.Peek()
-			logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
+			if 0 < tms.samples.Len() {
+				_, t := tms.samples.Peek()
+				logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
+			}
 		}
 	}
 }
@@ -57,25 +59,21 @@ func (tms *timedMultiStreamer) streamDirect(samples [][2]float64) (n int, draine
 }
 
 func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n int, drained bool) {
-	s, t := tms.samples.Peek()
-	for math.IsNaN(s[0]) {
-		tms.samples.Remove()
-		s, t = tms.samples.Peek()
-	}
-	if now < t+tms.samplesDuration(len(samples)) {
-		tms.background.Stream(samples)
-		return len(samples), false
-	} else if now < t {
+	for 0 < tms.samples.Len() {
+		s, t := tms.samples.Peek()
+		if math.IsNaN(s[0]) || t < now {
+			tms.samples.Remove()
+			continue
+		}
 		silence := tms.samplesCount(t - now)
+		if len(samples) <= silence {
+			break
+		}
 		tms.background.Stream(samples[:silence])
 		return silence, true
-	} else {
-		for t < now {
-			tms.samples.Remove()
-			_, t = tms.samples.Peek()
-		}
-		return 0, true
 	}
+	tms.background.Stream(samples)
+	return len(samples), false
 }
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
-- 
2.43.0


From f42b90fdb0365367a6b792700d9c13e0abd3121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 06/51] fix: chunks received in quick succession could be
 queued for playback in the wrong order

---
 playback/playback.go |  4 +---
 playback/streamer.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index d5af607..fc0ebe1 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -56,9 +56,7 @@ func QueueChunk(startTime int64, chunkID int64, samples [][2]float64) {
 	logger.Debugf("queueing chunk %d at %d", chunkID, startTime)
 
 	q := newQueuedStream(startTime, samples)
-	streamer.chunksMutex.Lock()
-	streamer.chunks = append(streamer.chunks, q)
-	streamer.chunksMutex.Unlock()
+	streamer.addChunk(q)
 	logger.Debugf("chunk %d queued at %d", chunkID, startTime)
 }
 
diff --git a/playback/streamer.go b/playback/streamer.go
index 48565ff..bcaa03c 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -89,6 +89,16 @@ func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	}
 }
 
+// addChunk queues a chunk, in order of start time: chunks received in quick succession may be handled in any order.
+func (tms *timedMultiStreamer) addChunk(chunk *queuedChunk) {
+	tms.chunksMutex.Lock()
+	defer tms.chunksMutex.Unlock()
+	tms.chunks = append(tms.chunks, chunk)
+	for i := len(tms.chunks) - 1; 0 < i && tms.chunks[i].startTime < tms.chunks[i-1].startTime; i-- {
+		tms.chunks[i-1], tms.chunks[i] = tms.chunks[i], tms.chunks[i-1]
+	}
+}
+
 // nextChunk removes the first queued chunk and returns it or nil, if there is none.
 func (tms *timedMultiStreamer) nextChunk() *queuedChunk {
 	tms.chunksMutex.Lock()
-- 
2.43.0


From ba0f5bebe959325eb145f9ce3716ef299d5a5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 07/51] fix: a player with a slow sound card lost the volume
 and the chunks sent while the card was opened

---
 schedule/player.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/schedule/player.go b/schedule/player.go
index 184c08d..4b373f9 100644
--- a/schedule/player.go
+++ b/schedule/player.go
@@ -14,6 +14,11 @@ func Player(sender comm.MessageSender) {
 			logger.Fatalf("failed to initialized playback: %v", err)
 			os.Exit(1)
 		}
+		// not earlier: until then, chunks are not queued and the volume is reset
+		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}); err != nil {
+			logger.Errorf("failed to subscribe to audio channel")
+			os.Exit(1)
+		}
 	}()
 
 	go func() {
@@ -22,11 +27,4 @@ func Player(sender comm.MessageSender) {
 			syncTime(sender)
 		}
 	}()
-
-	go func() {
-		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}); err != nil {
-			logger.Errorf("failed to subscribe to audio channel")
-			os.Exit(1)
-		}
-	}()
 }
-- 
2.43.0


From 3ef21d119ce661eec5480013e3bff51301b87e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 08/51] fix: a jump to a negative position crashed the server

---
 playback/playlist.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..0d32686 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -66,11 +66,17 @@ func (pl *Playlist) nextSong() (song string) {
 	if len(pl.songs) == 0 {
 		return ""
 	}
-	pos := pl.position % len(pl.songs)
+	pos := pl.songIndex()
 	pl.position = pos
 	return pl.songs[pos]
 }
 
+// songIndex returns the position as an index into songs, which must not be empty.
+func (pl *Playlist) songIndex() int {
+	n := len(pl.songs)
+	return (pl.position%n + n) % n
+}
+
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
@@ -149,7 +155,7 @@ func (pl *Playlist) Pos() int {
 	if len(pl.songs) == 0 {
 		return 0
 	}
-	return pl.position % len(pl.songs)
+	return pl.songIndex()
 }
 
 // Songs returns all songs in the playlist.
-- 
2.43.0


From ae6cf5870eab6131a82e9d40aa18a4d7c0075803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 09/51] fix: a third jump with nothing playing hung the
 session, and a jump could be lost or cut a later song

---
 playback/playlist.go | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 0d32686..a761258 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,7 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.advance()
 			continue
 		}
 
@@ -61,8 +61,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	pl.takeJump() // the position is the target of all jumps until now
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -100,7 +101,9 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 }
 
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
-	if 0 < len(pl.forceNext) && <-pl.forceNext {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if pl.takeJump() {
 		return true
 	}
 
@@ -111,6 +114,27 @@ func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) boo
 	return false
 }
 
+// advance makes the next song the current one, unless there was a jump to another one.
+func (pl *Playlist) advance() {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if !pl.takeJump() {
+		pl.position++
+	}
+}
+
+// takeJump returns true, if there was a jump since the last call. songsMutex must be locked.
+func (pl *Playlist) takeJump() (jumped bool) {
+	for {
+		select {
+		case <-pl.forceNext:
+			jumped = true
+		default:
+			return jumped
+		}
+	}
+}
+
 func (pl *Playlist) pushNanSamples(count int) {
 	for i := 0; i < count; i++ {
 		pl.pushSample(math.NaN(), math.NaN())
@@ -144,8 +168,13 @@ func (pl *Playlist) callPauseToggleHandler() {
 
 // SetPos jumps to the song at pos.
 func (pl *Playlist) SetPos(pos int) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // a jump is pending already and will use the new position
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From c8853f443dc64490740a77c240558988f5b5a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/51] fix: the stream stalled with a busy loop while no song
 in the playlist was playable

---
 playback/playlist.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index a761258..26919d4 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -39,7 +39,13 @@ type Playlist struct {
 // It must be called once before streaming from the playlist and must not be called again before the returning after
 // the context was canceled.
 func (pl *Playlist) StreamLoop(ctx context.Context) {
+	silent := 0 // number of songs without any samples in a row
 	for !util.IsCanceled(ctx) {
+		if 0 < silent && len(pl.Songs()) <= silent {
+			pl.pushNanSamples(noSongNanSampleCount)
+			silent = 0
+		}
+
 		filename := pl.nextSong()
 		if filename == "" {
 			pl.pushNanSamples(noSongNanSampleCount)
@@ -52,11 +58,18 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
 			pl.advance()
+			silent++
 			continue
 		}
 
+		start := pl.sampleIndexWrite
 		pl.pushStreamer(s)
 		pl.pushNanBreak()
+		if pl.sampleIndexWrite == start {
+			silent++
+		} else {
+			silent = 0
+		}
 	}
 }
 
-- 
2.43.0


From 1d404f0fdce26c1db45c4994bd8212175983ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 11/51] fix: the files of played and undecodable songs were
 never closed

---
 playback/playback.go | 1 +
 playback/playlist.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/playback/playback.go b/playback/playback.go
index fc0ebe1..41a105b 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -41,6 +41,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
diff --git a/playback/playlist.go b/playback/playlist.go
index 26919d4..d191235 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -64,6 +64,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 
 		start := pl.sampleIndexWrite
 		pl.pushStreamer(s)
+		if err := s.Close(); err != nil {
+			logger.Warnf("failed to close song %s: %v", filename, err)
+		}
 		pl.pushNanBreak()
 		if pl.sampleIndexWrite == start {
 			silent++
-- 
2.43.0


From 986ede3226d5208eb0a709053ee812e35faf7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 12/51] fix: a malformed message (wrong length, broken
 compression, cut connection) crashed the server

---
 comm/package_util.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..7738cff 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -62,6 +62,9 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	size := int64(binary.LittleEndian.Uint64(sizeBuf))
 	env, err := readBytes(conn, size)
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,9 +77,15 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
-	r.Close()
+	r, err := zlib.NewReader(bytes.NewBuffer(envelope.Data))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
+	defer r.Close()
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
 	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
@@ -104,14 +113,13 @@ func sendWire(m proto.Message, conn net.Conn) error {
 }
 
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
-	buf := make([]byte, number)
-	read := 0
-	for read < len(buf) {
-		n, err := conn.Read(buf[read:])
-		if err != nil {
-			return nil, err
-		}
-		read += n
+	if number < 0 {
+		return nil, fmt.Errorf("invalid size: %d", number)
+	}
+	// the buffer grows with the data received, as number may be wrong
+	buf := bytes.NewBuffer([]byte{})
+	if _, err := io.CopyN(buf, conn, number); err != nil {
+		return nil, err
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From 71ee8a47319fadff2f98cfc27763e8c37b8d379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 13/51] fix: a client that subscribed while the server was
 starting crashed it

---
 comm/package_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..2fb269f 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if NewClientHandler != nil {
+		NewClientHandler(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
-- 
2.43.0


From 78e140574aa8fd0a3cf62f67f1cf7c33264d6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 14/51] fix: one client that stopped reading blocked broadcasts
 to, and connecting and leaving of, all others

---
 comm/message_sender.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..3e5be3a 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -23,19 +23,16 @@ type multiMessageSender struct {
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
-	chs, hasCh := channelOf(m)
+	receivers := mms.receivers(m)
 
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
-	wg.Add(len(mms.connections))
+	wg.Add(len(receivers))
 
-	for _, c := range mms.connections {
+	for _, c := range receivers {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := mms.sendMessageTo(m, c, hasCh, chs); err != nil {
+			if err := sendWire(m, c); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -47,11 +44,20 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
-func (mms *multiMessageSender) sendMessageTo(m proto.Message, c net.Conn, hasCh bool, chs []Channel) error {
-	if !hasCh || mms.isSubscribed(c, chs) {
-		return sendWire(m, c)
+// receivers returns the connections m has to be sent to. The mutex is not held while sending, as a client which does not
+// read would otherwise block everyone else.
+func (mms *multiMessageSender) receivers(m proto.Message) []net.Conn {
+	mms.mutex.RLock()
+	defer mms.mutex.RUnlock()
+
+	chs, hasCh := channelOf(m)
+	receivers := make([]net.Conn, 0, len(mms.connections))
+	for _, c := range mms.connections {
+		if !hasCh || mms.isSubscribed(c, chs) {
+			receivers = append(receivers, c)
+		}
 	}
-	return nil
+	return receivers
 }
 
 func (mms *multiMessageSender) AddConn(c net.Conn) {
-- 
2.43.0


From 7c7d63e925818447989935793c79b227ad25d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 15/51] fix: the subscriptions of disconnected clients were
 kept for ever

---
 comm/message_sender.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 3e5be3a..137913d 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -82,11 +82,15 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
+	delete(mms.channels, c)
 }
 
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
+	if !mms.isConnected(c) {
+		return
+	}
 	if l, ok := mms.channels[c]; ok {
 		mms.channels[c] = append(l, channel)
 	} else {
@@ -94,6 +98,15 @@ func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	}
 }
 
+func (mms *multiMessageSender) isConnected(c net.Conn) bool {
+	for _, conn := range mms.connections {
+		if conn == c {
+			return true
+		}
+	}
+	return false
+}
+
 func (mms *multiMessageSender) isSubscribed(c net.Conn, channels []Channel) bool {
 	if l, ok := mms.channels[c]; ok {
 		for _, ch := range l {
-- 
2.43.0


From 34176fd503d201867161f2997940fee1bf8a8970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 16/51] fix: a display that stopped reading while joining
 blocked the pause history for all others

---
 schedule/server_state.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..bb0b8f4 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -36,10 +36,12 @@ func (ss *serverState) sendNewestSong(s comm.MessageSender) {
 
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
-	for _, p := range ss.pauses {
+	pauses := append([]*comm.PauseInfo{}, ss.pauses...)
+	ss.pausesMutex.RUnlock()
+	// sending may block, if the client does not read
+	for _, p := range pauses {
 		s.SendMessage(p)
 	}
-	ss.pausesMutex.RUnlock()
 }
 
 func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSender) {
-- 
2.43.0


From 0c0aa198af7e50a8d60df110cd7b29f03e4a1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 17/51] fix: pauses could be missing from or twice removed from
 the history sent to joining displays

---
 schedule/server_state.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index bb0b8f4..408eb5a 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -100,23 +100,35 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		// before sending it: a display that joins now gets it from the history or as broadcast
+		ss.addPause(pause)
+		go ss.removeOldPauses()
 		ss.sender.SendMessage(pause)
 	}
 }
 
-func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
-		return 0
+// addPause adds a pause to the history, which is ordered by sample index. Pauses in quick succession may be added in
+// any order.
+func (ss *serverState) addPause(pause *comm.PauseInfo) {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+	ss.pauses = append(ss.pauses, pause)
+	for i := len(ss.pauses) - 1; 0 < i && ss.pauses[i].ToggleSampleIndex < ss.pauses[i-1].ToggleSampleIndex; i-- {
+		ss.pauses[i-1], ss.pauses[i] = ss.pauses[i], ss.pauses[i-1]
 	}
+}
 
+func (ss *serverState) removablePauses() int {
 	ss.pausesMutex.Lock()
 	defer ss.pausesMutex.Unlock()
+	return ss.countRemovablePauses()
+}
+
+// countRemovablePauses returns the number of removable pauses. pausesMutex must be locked.
+func (ss *serverState) countRemovablePauses() int {
+	if ss.newestSong == nil {
+		return 0
+	}
 
 	passed := 0
 	for i, p := range ss.pauses {
@@ -131,11 +143,11 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
-	removable := ss.removablePauses()
-	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
 
+	removable := ss.countRemovablePauses()
+	if 0 < removable {
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From 957c6fd94084a6e113cb5e1649cc928046b19468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 18/51] fix: with two songs starting in quick succession the
 earlier one could stay the newest song for joining displays

---
 schedule/server_state.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 408eb5a..b2b6b74 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -18,7 +18,8 @@ type serverState struct {
 	playlist *playback.Playlist
 	volume   float64
 
-	newestSong *comm.NewSongInfo
+	newestSong      *comm.NewSongInfo
+	newestSongMutex sync.RWMutex
 
 	pauses      []*comm.PauseInfo
 	pausesMutex sync.RWMutex
@@ -29,8 +30,24 @@ func (ss *serverState) sendVolume(s comm.MessageSender) {
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	if song := ss.getNewestSong(); song != nil {
+		s.SendMessage(song)
+	}
+}
+
+func (ss *serverState) getNewestSong() *comm.NewSongInfo {
+	ss.newestSongMutex.RLock()
+	defer ss.newestSongMutex.RUnlock()
+	return ss.newestSong
+}
+
+// addNewSong makes song the newest one, unless a later one was added before: collecting lyrics and metadata may take
+// longer for the earlier one.
+func (ss *serverState) addNewSong(song *comm.NewSongInfo) {
+	ss.newestSongMutex.Lock()
+	defer ss.newestSongMutex.Unlock()
+	if ss.newestSong == nil || ss.newestSong.FirstSampleOfSongIndex <= song.FirstSampleOfSongIndex {
+		ss.newestSong = song
 	}
 }
 
@@ -79,7 +96,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -90,7 +107,8 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.addNewSong(song)
+		ss.sender.SendMessage(song)
 	}
 }
 
@@ -126,13 +144,14 @@ func (ss *serverState) removablePauses() int {
 
 // countRemovablePauses returns the number of removable pauses. pausesMutex must be locked.
 func (ss *serverState) countRemovablePauses() int {
-	if ss.newestSong == nil {
+	newestSong := ss.getNewestSong()
+	if newestSong == nil {
 		return 0
 	}
 
 	passed := 0
 	for i, p := range ss.pauses {
-		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
+		inPast := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
 		if !inPast && p.Playing {
 			passed = i
 		} else if inPast {
-- 
2.43.0


From 43347fa67f18756fda66e655f2ea3c81d69edd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 19/51] fix: a volume command with a malformed argument set the
 volume sent to joining clients to 0

---
 schedule/server_state_commands.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..c0fc39f 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -162,15 +162,15 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			ss.volume = volume
+			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume}); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From 01af2c6a3fb08a64eb13a1d00b2c82508c8c33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 20/51] fix: a client that joined while the volume changed
 could keep the old volume

---
 schedule/server_state.go          | 29 +++++++++++++++++++++++++----
 schedule/server_state_commands.go |  5 ++---
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index b2b6b74..fc73b0e 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -5,6 +5,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/metadata"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/timing"
+	"math"
 	"sync"
 	"time"
 )
@@ -15,8 +16,9 @@ type serverState struct {
 	lyricsProvider   metadata.LyricsProvider
 	metadataProvider metadata.Provider
 
-	playlist *playback.Playlist
-	volume   float64
+	playlist    *playback.Playlist
+	volume      float64
+	volumeMutex sync.RWMutex
 
 	newestSong      *comm.NewSongInfo
 	newestSongMutex sync.RWMutex
@@ -25,8 +27,27 @@ type serverState struct {
 	pausesMutex sync.RWMutex
 }
 
-func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+func (ss *serverState) setVolume(volume float64) {
+	ss.volumeMutex.Lock()
+	defer ss.volumeMutex.Unlock()
+	ss.volume = volume
+}
+
+func (ss *serverState) getVolume() float64 {
+	ss.volumeMutex.RLock()
+	defer ss.volumeMutex.RUnlock()
+	return ss.volume
+}
+
+// sendVolume sends the current volume. If it changes meanwhile, it is sent again, as the old volume may have arrived last.
+func (ss *serverState) sendVolume(s comm.MessageSender) error {
+	for {
+		volume := ss.getVolume()
+		err := s.SendMessage(&comm.SetVolumeRequest{Volume: volume})
+		if math.Float64bits(volume) == math.Float64bits(ss.getVolume()) {
+			return err
+		}
+	}
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index c0fc39f..6eaebb9 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -2,7 +2,6 @@ package schedule
 
 import (
 	"fmt"
-	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
@@ -166,8 +165,8 @@ func (ss *serverState) volumeCommand() ssh.Command {
 			if !ok {
 				return "", false
 			}
-			ss.volume = volume
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume}); err != nil {
+			ss.setVolume(volume)
+			if err := ss.sendVolume(ss.sender); err != nil {
 				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
 			return fmt.Sprintf("setting volume to %.3f", volume), true
-- 
2.43.0


From 7e636922df1ee09f77cffd6fa22ad0113e9529da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 21/51] fix: the volume command hung while any client did not
 read

---
 schedule/server_state_commands.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 6eaebb9..964613e 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -7,8 +7,12 @@ import (
 	"github.com/LogicalOverflow/music-sync/util"
 	"strconv"
 	"strings"
+	"time"
 )
 
+// volumeSendTimeout is how long the volume command waits for all clients to receive the volume
+const volumeSendTimeout = time.Second
+
 func parseFloatParam(args []string, index int) (float64, bool) {
 	if len(args) <= index {
 		return 0, false
@@ -166,8 +170,14 @@ func (ss *serverState) volumeCommand() ssh.Command {
 				return "", false
 			}
 			ss.setVolume(volume)
-			if err := ss.sendVolume(ss.sender); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
+			result := make(chan error, 1)
+			go func() { result <- ss.sendVolume(ss.sender) }()
+			select {
+			case err := <-result:
+				if err != nil {
+					return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
+				}
+			case <-time.After(volumeSendTimeout): // some client does not read, do not wait for it
 			}
 			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
-- 
2.43.0


From 3da38a3b900f98716bc5aa21aa0b01e2e2a99ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 22/51] fix: clients handled messages received in quick
 succession in any order (volume changes, audio chunks)

---
 comm/conn_handler.go    |  2 +-
 comm/package_handler.go | 36 +++++++++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 58ecd61..a55954f 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -75,7 +75,7 @@ func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender,
 	}
 	logger.Infof("connected to master at %s", master)
 	go func() {
-		handleConnection(conn, handler)
+		handleConnection(conn, orderedPackageHandler{handler})
 		logger.Fatalf("connection to master closed")
 		os.Exit(1)
 	}()
diff --git a/comm/package_handler.go b/comm/package_handler.go
index 2fb269f..092e5f8 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -58,32 +58,46 @@ type TypedPackageHandlerInterface interface {
 	HandlePauseInfo(*PauseInfo, net.Conn)
 }
 
-// Handle forwards the message and sender to the matching Handle function of TypedPackageHandlerInterface
+// Handle forwards the message and sender to the matching Handle function of TypedPackageHandlerInterface, without
+// waiting for it to return
 func (t TypedPackageHandler) Handle(message proto.Message, sender net.Conn) {
+	go t.handle(message, sender)
+}
+
+func (t TypedPackageHandler) handle(message proto.Message, sender net.Conn) {
 	switch message.(type) {
 	case *TimeSyncRequest:
-		go t.HandleTimeSyncRequest(message.(*TimeSyncRequest), sender)
+		t.HandleTimeSyncRequest(message.(*TimeSyncRequest), sender)
 	case *TimeSyncResponse:
-		go t.HandleTimeSyncResponse(message.(*TimeSyncResponse), sender)
+		t.HandleTimeSyncResponse(message.(*TimeSyncResponse), sender)
 	case *QueueChunkRequest:
-		go t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
+		t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
 	case *PingMessage:
-		go t.HandlePingMessage(message.(*PingMessage), sender)
+		t.HandlePingMessage(message.(*PingMessage), sender)
 	case *PongMessage:
-		go t.HandlePongMessage(message.(*PongMessage), sender)
+		t.HandlePongMessage(message.(*PongMessage), sender)
 	case *SetVolumeRequest:
-		go t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
+		t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
 	case *SubscribeChannelRequest:
-		go t.HandleSubscribeChannelRequest(message.(*SubscribeChannelRequest), sender)
+		t.HandleSubscribeChannelRequest(message.(*SubscribeChannelRequest), sender)
 	case *NewSongInfo:
-		go t.HandleNewSongInfo(message.(*NewSongInfo), sender)
+		t.HandleNewSongInfo(message.(*NewSongInfo), sender)
 	case *ChunkInfo:
-		go t.HandleChunkInfo(message.(*ChunkInfo), sender)
+		t.HandleChunkInfo(message.(*ChunkInfo), sender)
 	case *PauseInfo:
-		go t.HandlePauseInfo(message.(*PauseInfo), sender)
+		t.HandlePauseInfo(message.(*PauseInfo), sender)
 	}
 }
 
+// orderedPackageHandler handles messages one after the other, in the order they are received
+type orderedPackageHandler struct {
+	TypedPackageHandler
+}
+
+func (o orderedPackageHandler) Handle(message proto.Message, sender net.Conn) {
+	o.handle(message, sender)
+}
+
 // TODO: move this is the server cmd?
 
 type serverPackageHandler struct {
-- 
2.43.0


From b13f18571eb08cbd9ddf40214c87e391c4e2b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 23/51] fix: a song that took long to open delayed all later
 chunks of the stream for ever

---
 schedule/server_state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index fc73b0e..f6477dc 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -200,7 +200,8 @@ func (ss *serverState) streamMusic() {
 	time.Sleep(StreamStartDelay)
 	start := timing.GetSyncedTime() + int64(StreamDelay/time.Nanosecond)
 	index := int64(0)
-	for range time.Tick(StreamChunkTime) {
+	for next := time.Now().Add(StreamChunkTime); 0 < StreamChunkTime; next = next.Add(StreamChunkTime) {
+		time.Sleep(time.Until(next))
 		low := make([]float64, StreamChunkSize)
 		high := make([]float64, StreamChunkSize)
 
-- 
2.43.0


From 1fc442c42eecf15645ce871c1a984a8f409713d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 24/51] fix: messages for a client that stopped reading piled
 up without limit

---
 comm/message_sender.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 137913d..3d6ded4 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -3,6 +3,7 @@ package comm
 import (
 	"net"
 	"sync"
+	"time"
 
 	"github.com/LogicalOverflow/music-sync/util"
 
@@ -16,6 +17,10 @@ type MessageSender interface {
 	SendMessage(m proto.Message) error
 }
 
+// sendTimeout is how long sending a message to a client may take. A client which does not read it in this time is
+// disconnected, as the messages waiting to be sent to it would pile up.
+const sendTimeout = time.Minute
+
 type multiMessageSender struct {
 	connections []net.Conn
 	channels    map[net.Conn][]Channel
@@ -32,6 +37,8 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	for _, c := range receivers {
 		go func(c net.Conn) {
 			defer wg.Done()
+			timeout := time.AfterFunc(sendTimeout, func() { c.Close() })
+			defer timeout.Stop()
 			if err := sendWire(m, c); err != nil {
 				errCol.Add(err)
 			}
-- 
2.43.0


From 92228b3fe714aa9813e1d06e6590ff440d69512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 25/51] fix: non-ASCII characters in commands were mangled

---
 ssh/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..db9678f 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"reflect"
 	"strings"
+	"unicode/utf8"
 )
 
 func getParser(line string) *shell_parser.ShellParser {
@@ -62,8 +63,9 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	// the character itself is the last one, after the escape character (if any)
+	if _, size := utf8.DecodeLastRuneInString(ctx.GetText()); size != 0 {
+		s.currentString += ctx.GetText()[len(ctx.GetText())-size:]
 	}
 }
 
-- 
2.43.0


From aa42234e09701f5d3be4b8aeec39f6943f8dfe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 26/51] fix: escaped spaces at the begin and end of command
 parameters were removed

---
 ssh/parser/parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index db9678f..4033de0 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -91,10 +91,3 @@ func (s *shellListener) ExitParameter(ctx *shell_parser.ParameterContext) {
 		s.cmd.Parameters = append(s.cmd.Parameters, str)
 	}
 }
-
-func (s *shellListener) ExitLine(ctx *shell_parser.LineContext) {
-	s.cmd.Command = strings.TrimSpace(s.cmd.Command)
-	for i := range s.cmd.Parameters {
-		s.cmd.Parameters[i] = strings.TrimSpace(s.cmd.Parameters[i])
-	}
-}
-- 
2.43.0


From 821119d283bdcc8c3926ea9bb77e5182c4ae8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 27/51] fix: backslashes were not escaped when completing
 commands

---
 ssh/parser/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 4033de0..9d174cd 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -22,17 +22,24 @@ type ParsedCommand struct {
 	Parameters []string
 }
 
+var escaper = strings.NewReplacer("\\", "\\\\", " ", "\\ ")
+
+// escape converts a word to the way it is written in a shell command
+func escape(word string) string {
+	return escaper.Replace(word)
+}
+
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
 	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
+		return escape(c.Command) + " "
 	}
 	unparsedParams := make([]string, len(c.Parameters))
 	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+		unparsedParams[i] = escape(p)
 	}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+	return escape(c.Command) + " " + strings.Join(unparsedParams, " ") + " "
 }
 
 // ParseCommand parses an ssh command
-- 
2.43.0


From 211aebf3d51f7528e260e44a4dd32fd0d69f5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 28/51] fix: songs had wrong names if the music directory was
 given as ./dir or .

---
 util/file_utils.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..31cb535 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -34,14 +34,16 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	return walked
 }
 
-func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+// removeDirPrefix returns path relative to dir, which it is in ("" for dir itself)
+func removeDirPrefix(path string, dir string) string {
+	rel, err := filepath.Rel(dir, path)
+	if err != nil {
+		return path
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
+	if rel == "." {
+		return ""
 	}
-	return path
+	return rel
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
-- 
2.43.0


From 500fda1eeb732ab2e4fe1da630c2385ac6a964c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 29/51] fix: the queue command found no songs if the path of
 the music directory contained glob characters

---
 util/file_utils.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 31cb535..cdb2e76 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -69,9 +69,19 @@ func ListAllSubDirs(dir string) []string {
 	})
 }
 
+var globEscaper = strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[")
+
+// escapeGlob converts path to a glob pattern matching only path
+func escapeGlob(path string) string {
+	if os.PathSeparator == '\\' { // there is no escaping
+		return path
+	}
+	return globEscaper.Replace(path)
+}
+
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	matches, err := filepath.Glob(filepath.Join(escapeGlob(dir), pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From c137fe3f1ebf35c4aadbd8d373908b91f673419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 30/51] fix: a directory which can not be read hid the songs
 after it

---
 util/file_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index cdb2e76..4f29123 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -22,8 +22,8 @@ func FilterSongs(files []string) []string {
 func walker(root string, pathTransform func(string) string, pathFilter func(string, os.FileInfo) bool) []string {
 	walked := make([]string, 0)
 	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
-		if err != nil {
-			return err
+		if err != nil { // skip what can not be read
+			return nil
 		}
 		path = pathTransform(path)
 		if pathFilter(path, f) {
-- 
2.43.0


From 2fa5fafe0ff53199462de6878b4377913fadebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 31/51] fix: completion ignored the cursor position, crashed on
 multiple spaces and misplaced text after escaped characters

---
 ssh/auto_completer.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..564057c 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -10,26 +10,35 @@ type sshAutoCompleter struct{}
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
 
-	lastChar := '\x00'
-	if len(line) != 0 {
-		lastChar = line[len(line)-1]
-	}
+	// only what is before the cursor is completed
+	typed := string(line[:pos])
+	length = pos
 
-	cmd := parser.ParseCommand(string(line))
-	if lastChar == ' ' {
+	cmd := parser.ParseCommand(typed)
+	newWord := strings.HasSuffix(typed, " ") && !endsEscaped(strings.TrimSuffix(typed, " "))
+	if newWord {
 		cmd.Parameters = append(cmd.Parameters, "")
 	}
 
-	if len(cmd.Parameters) == 0 && lastChar != ' ' {
-		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
-	} else {
-		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
+	// the position in the unparsed command: what was typed may be written differently
+	unparsedPos := len([]rune(cmd.Unparse())) - 1
+	if endsEscaped(typed) {
+		unparsedPos-- // the last backslash is typed, but not escaped yet
 	}
 
-	length = pos
+	if len(cmd.Parameters) == 0 {
+		newLine = sac.commandsWithPrefix(cmd, unparsedPos, newLine)
+	} else {
+		newLine = sac.commandArgOptionsWithPrefix(cmd, unparsedPos, newLine)
+	}
 	return
 }
 
+// endsEscaped returns whether s ends with a backslash escaping the next character
+func endsEscaped(s string) bool {
+	return (len(s)-len(strings.TrimRight(s, "\\")))%2 == 1
+}
+
 func (sac *sshAutoCompleter) commandNames() []string {
 	cs := []string{"clear", "exit"}
 	for _, c := range commands {
@@ -41,7 +50,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune(parser.ParsedCommand{Command: c}.Unparse())[pos:])
 		}
 	}
 	return result
-- 
2.43.0


From 4c24c5c69fff4fd1edd40134db5bcf48c71a48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 32/51] fix: completing a song name with glob characters did
 not select this song

---
 schedule/server_state_commands.go | 5 +++--
 util/file_utils.go                | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 964613e..845d23e 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -83,8 +83,9 @@ func (ss *serverState) queueCommand() ssh.Command {
 			songs := util.FilterSongs(util.ListAllFiles(playback.AudioDir, ""))
 			options := make([]string, 0, len(songs))
 			for _, song := range songs {
-				if strings.HasPrefix(song, prefix) {
-					options = append(options, song)
+				// the argument is a glob pattern
+				if pattern := util.EscapeGlob(song); strings.HasPrefix(pattern, prefix) {
+					options = append(options, pattern)
 				}
 			}
 			return options
diff --git a/util/file_utils.go b/util/file_utils.go
index 4f29123..0199231 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -71,8 +71,8 @@ func ListAllSubDirs(dir string) []string {
 
 var globEscaper = strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[")
 
-// escapeGlob converts path to a glob pattern matching only path
-func escapeGlob(path string) string {
+// EscapeGlob converts path to a glob pattern matching only path
+func EscapeGlob(path string) string {
 	if os.PathSeparator == '\\' { // there is no escaping
 		return path
 	}
@@ -81,7 +81,7 @@ func escapeGlob(path string) string {
 
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(escapeGlob(dir), pattern))
+	matches, err := filepath.Glob(filepath.Join(EscapeGlob(dir), pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From e638857a7c9f6f5db4e455a320293eda0ec2c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 33/51] fix: before the first sample of the stream is due,
 displays applied all pauses and resumes announced ahead

---
 cmd/music-sync-infoer/state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..fa22084 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -75,7 +75,8 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	// sample is negative until the stream's first sample is due
+	if sample <= int64(p.toggleIndex) || picss.playing == p.playing {
 		return
 	}
 
-- 
2.43.0


From f9f52c5bc8cdf212ea6e803cc9569b0c0e4b5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 34/51] fix: the display's times overflowed for songs of
 several days

---
 cmd/music-sync-infoer/state.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index fa22084..36d0403 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -49,11 +49,11 @@ func (s *state) Info(now int64) *playbackInformation {
 
 	if currentSong.startIndex != 0 && int64(currentSong.startIndex) < sample {
 		sampleInSong := sample - int64(currentSong.startIndex) - pausesInCurrentSong
-		timeInSong = time.Duration(sampleInSong) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
+		timeInSong = samplesDuration(sampleInSong)
 		if 0 < currentSong.length {
 			progressInSong = float64(sampleInSong) / float64(currentSong.length)
 		}
-		songLength = time.Duration(currentSong.length) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
+		songLength = samplesDuration(currentSong.length)
 	}
 
 	return &playbackInformation{
@@ -68,6 +68,12 @@ func (s *state) Info(now int64) *playbackInformation {
 		ProgressInSong:      progressInSong}
 }
 
+// samplesDuration returns how long samples take, without overflowing for songs of several days
+func samplesDuration(samples int64) time.Duration {
+	rate := int64(schedule.SampleRate)
+	return time.Duration(samples/rate)*time.Second + time.Duration(samples%rate)*time.Second/time.Duration(rate)
+}
+
 type pausesInCurrentSongState struct {
 	playing             bool
 	pausesInCurrentSong int64
-- 
2.43.0


From 05f380f5e6e7df5004c0375c4bf3617fc9d9bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 35/51] fix: a display whose clock was ahead dropped the
 announcements it received before its first time sync

---
 schedule/infoer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/schedule/infoer.go b/schedule/infoer.go
index eb4fa0e..a115971 100644
--- a/schedule/infoer.go
+++ b/schedule/infoer.go
@@ -11,16 +11,14 @@ import (
 func Infoer(sender comm.MessageSender) {
 	go func() {
 		syncTime(sender)
-		for range time.Tick(TimeSyncInterval) {
-			syncTime(sender)
-		}
-	}()
-
-	go func() {
+		// not earlier: with an unsynced clock, chunks could be taken for past ones
 		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_META}); err != nil {
 			logger.Errorf("failed to subscribe to meta channel")
 			os.Exit(1)
 		}
+		for range time.Tick(TimeSyncInterval) {
+			syncTime(sender)
+		}
 	}()
 }
 
-- 
2.43.0


From c0a00e497e917c346db2e597430f086c0915ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 36/51] fix: the display drew text that is not ASCII with gaps

---
 cmd/music-sync-infoer/drawing.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..f1d799e 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
+	"unicode"
 )
 
 type drawer struct {
@@ -29,8 +30,22 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
-		d.SetContent(x+i, y, r, nil, style)
+	last := -1 // the cell of the character that combining characters belong to
+	for _, r := range str {
+		if unicode.In(r, unicode.Mn, unicode.Me, unicode.Cf) {
+			if 0 <= last {
+				main, comb, _, _ := d.GetContent(last, y)
+				d.SetContent(last, y, main, append(comb, r), style)
+			}
+			continue
+		}
+		d.SetContent(x, y, r, nil, style)
+		last = x
+		if _, _, _, width := d.GetContent(x, y); 1 < width {
+			x += width
+		} else {
+			x++
+		}
 	}
 }
 
-- 
2.43.0


From 1cbac75007b3543a3b6539b1b4a219887fd466a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 37/51] fix: the command line options for the levels of single
 loggers had no effect

---
 cmd/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..e6cda91 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -73,7 +73,7 @@ func newLoggingFlag(name string) LoggingFlag {
 	return LoggingFlag{StringFlag: cli.StringFlag{
 		Name:  fmt.Sprintf("%s-logging", name),
 		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
-	}}
+	}, logName: name}
 }
 
 // HandleLoggingFlags sets the log levels according to the logging cli flags
@@ -82,7 +82,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From 9766f4453ff880edffdf997445e7eb9ca6d4976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 38/51] fix: the error of a broadcast had a placeholder in its
 message

---
 comm/message_sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 3d6ded4..8b0768c 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -48,7 +48,7 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	wg.Wait()
 	errCol.Wait()
 
-	return errCol.Err("failed to send to %d clients: ")
+	return errCol.Err("failed to send to clients")
 }
 
 // receivers returns the connections m has to be sent to. The mutex is not held while sending, as a client which does not
-- 
2.43.0


From e6819c09e552f41615f5b1d611d86f96d7ea8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 39/51] fix: limit the size of received messages, also after
 decompression

---
 comm/package_util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index 7738cff..f4a9b2e 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -14,6 +14,9 @@ import (
 
 const zlibLevel = 5
 
+// maxMessageSize is the largest size of a message accepted, compressed and uncompressed
+const maxMessageSize = 64 << 20
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -61,6 +64,9 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, err
 	}
 	size := int64(binary.LittleEndian.Uint64(sizeBuf))
+	if size > maxMessageSize {
+		return nil, fmt.Errorf("message too large: %d bytes", size)
+	}
 	env, err := readBytes(conn, size)
 	if err != nil {
 		return nil, err
@@ -82,10 +88,13 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
 	}
 	defer r.Close()
-	data, err := ioutil.ReadAll(r)
+	data, err := ioutil.ReadAll(io.LimitReader(r, maxMessageSize+1))
 	if err != nil {
 		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
 	}
+	if len(data) > maxMessageSize {
+		return nil, fmt.Errorf("inner protobuf (%s) too large", envelope.Type)
+	}
 
 	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-- 
2.43.0


From 9219324f60fa91fb0fc9b0bdfbe4cdbc33b1917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 40/51] fix: register the server's commands before accepting
 ssh sessions

---
 cmd/music-sync-server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-server/main.go b/cmd/music-sync-server/main.go
index a5f1fe5..ef525de 100644
--- a/cmd/music-sync-server/main.go
+++ b/cmd/music-sync-server/main.go
@@ -101,8 +101,9 @@ func run(ctx *cli.Context) error {
 	}
 
 	ssh.HostKeyFile = sshKeyFile
+	// registers its commands, so they are there once ssh sessions are accepted
+	schedule.Server(sender)
 	go ssh.StartSSH(sshListen, users)
-	go schedule.Server(sender)
 
 	cmd.WaitForInterrupt()
 	return nil
-- 
2.43.0


From dae626ca8d084ae2fb9087ef244a78a411855774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 41/51] fix: send the volume to clients that subscribed before
 the server was set up

---
 schedule/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schedule/server.go b/schedule/server.go
index 2506ee2..5158634 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -22,6 +22,8 @@ func Server(sender comm.MessageSender) {
 	ss.pauses = make([]*comm.PauseInfo, 0)
 
 	comm.NewClientHandler = ss.createClientHandler()
+	// clients may have subscribed before the handler was set
+	go ss.sendVolume(ss.sender)
 
 	go ss.playlist.StreamLoop(context.Background())
 
-- 
2.43.0


From c8c6de4dc64f1cf78decfbe86321d923e1d97b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 42/51] fix: malformed tags of a song crashed the server

---
 metadata/metadata_provider.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..c312ba3 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -27,7 +27,13 @@ func GetProvider() Provider {
 
 type basicProvider struct{}
 
-func (basicProvider) CollectMetadata(song string) SongMetadata {
+func (basicProvider) CollectMetadata(song string) (metadata SongMetadata) {
+	defer func() {
+		// reading malformed tags may panic
+		if r := recover(); r != nil {
+			metadata = SongMetadata{}
+		}
+	}()
 	path := filepath.Join(playback.AudioDir, song)
 	if !util.IsFile(path) {
 		return SongMetadata{}
-- 
2.43.0


From 70d381a0493288f1ac6e6f233558e795a2fc2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 43/51] fix: songs with names or tags that are no valid UTF-8
 were never announced

---
 schedule/server_state.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index f6477dc..8df6b3d 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -6,6 +6,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/timing"
 	"math"
+	"strings"
 	"sync"
 	"time"
 )
@@ -110,6 +111,11 @@ func toWireLyrics(lyrics []metadata.LyricsLine) []*comm.NewSongInfo_SongLyricsLi
 	return wireLyrics
 }
 
+// validText replaces what is not valid UTF-8, which cannot be sent.
+func validText(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
 func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 	return func(startSampleIndex uint64, filename string, songLength int64) {
 		lyrics := ss.lyricsProvider.CollectLyrics(filename)
@@ -119,13 +125,13 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
-			SongFileName:           filename,
+			SongFileName:           validText(filename),
 			SongLength:             songLength,
 			Lyrics:                 wireLyrics,
 			Metadata: &comm.NewSongInfo_SongMetadata{
-				Title:  md.Title,
-				Artist: md.Artist,
-				Album:  md.Album,
+				Title:  validText(md.Title),
+				Artist: validText(md.Artist),
+				Album:  validText(md.Album),
 			},
 		}
 		ss.addNewSong(song)
-- 
2.43.0


From c6d9c07290e6beff5aff46d994bba7257012de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 44/51] fix: files of lyrics and tags were left open

---
 metadata/lyrics_provider.go   | 1 +
 metadata/metadata_provider.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index c312ba3..7db2db4 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -42,6 +42,7 @@ func (basicProvider) CollectMetadata(song string) (metadata SongMetadata) {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
-- 
2.43.0


From b44265a2b8b65599ad242d736a6acc6ee6474b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 45/51] fix: damaged files that make the decoder panic crashed
 the server

---
 playback/playback.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 41a105b..1cc5130 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -39,13 +39,44 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 		return nil, fmt.Errorf("failed to open file %s: %v", filename, err)
 	}
 
-	s, _, err := mp3.Decode(f)
+	s, err := decode(f)
 	if err != nil {
 		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
-	return s, nil
+	return &damagedStreamer{StreamSeekCloser: s}, nil
+}
+
+// decode returns an error if the decoder panics, which it may do for damaged files.
+func decode(f *os.File) (s beep.StreamSeekCloser, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			s, err = nil, fmt.Errorf("decoder failed: %v", r)
+		}
+	}()
+	s, _, err = mp3.Decode(f)
+	return
+}
+
+// damagedStreamer ends the stream if the decoder panics, which it may do for damaged files.
+type damagedStreamer struct {
+	beep.StreamSeekCloser
+	failed bool
+}
+
+func (ds *damagedStreamer) Stream(samples [][2]float64) (n int, ok bool) {
+	if ds.failed {
+		return 0, false
+	}
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Warnf("decoder failed: %v", r)
+			ds.failed = true
+			n, ok = 0, false
+		}
+	}()
+	return ds.StreamSeekCloser.Stream(samples)
 }
 
 // QueueChunk queue a chunk for playback
-- 
2.43.0


From 20538392bfd4a62dd14098c5b30588fb5ac453d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 46/51] fix: keys typed and terminal sizes in an ssh session
 could crash, suspend or block the whole server

readline panics in its own goroutine for a history search before the first
line, the transposition of a single character, and some completions (wide
characters, candidates wider than the terminal); it sends SIGTSTP to the
server on ctrl-z, and never returns for some widths not larger than the prompt
---
 ssh/session_handler.go |   9 +++-
 ssh/session_input.go   | 102 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 109 insertions(+), 2 deletions(-)
 create mode 100644 ssh/session_input.go

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..448acef 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -13,6 +13,7 @@ type session struct {
 	ssh.Session
 	cfg *readline.Config
 	ex  *readline.Instance
+	in  *sessionInput
 
 	width, height int
 }
@@ -52,21 +53,25 @@ func (s *session) init() bool {
 
 func (s *session) createEx() (err error) {
 	s.ex, err = readline.NewEx(s.cfg)
+	s.in.ex = s.ex
 	return
 }
 
 func (s *session) createReadlineConfig() {
+	s.in = &sessionInput{completer: &sshAutoCompleter{}}
 	s.cfg = &readline.Config{
 		Prompt: "\033[31mmusic-sync»\033[0m ",
 
-		AutoComplete: &sshAutoCompleter{},
+		AutoComplete: s.in,
+		Listener:     s.in,
 
 		VimMode: false,
 
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: func() int { return s.width },
+		FuncGetWidth:        func() int { return s.in.useWidth(s.width) },
+		FuncFilterInputRune: s.in.filter,
 
 		Stdin:       s,
 		Stdout:      s,
diff --git a/ssh/session_input.go b/ssh/session_input.go
new file mode 100644
index 0000000..e0bbb57
--- /dev/null
+++ b/ssh/session_input.go
@@ -0,0 +1,102 @@
+package ssh
+
+import (
+	"github.com/chzyer/readline"
+	"github.com/chzyer/readline/runes"
+)
+
+const (
+	defaultWidth = 80 // the width used, if the client does not tell the width of its terminal
+	minWidth     = 20 // readline needs a terminal wider than the prompt
+)
+
+// sessionInput keeps the input from readline, which it can not handle:
+// readline panics in its own goroutine, which would end the server
+type sessionInput struct {
+	completer readline.AutoCompleter
+	ex        *readline.Instance
+
+	width      int  // the width used by readline
+	lineLength int  // the length of the line being edited
+	edited     bool // whether there is a line to search in the history
+	fits       bool // whether the completion candidates fit the terminal
+}
+
+// useWidth returns the width to use for a terminal
+func (si *sessionInput) useWidth(width int) int {
+	si.width = width
+	if width <= 0 {
+		si.width = defaultWidth
+	} else if width < minWidth {
+		si.width = minWidth
+	}
+	return si.width
+}
+
+// filter is called with every key and returns the key to handle and whether to handle it at all
+func (si *sessionInput) filter(r rune) (rune, bool) {
+	if si.ex.Operation.IsInCompleteSelectMode() {
+		return si.filterSelect(r)
+	}
+	switch r {
+	case readline.CharCtrlZ: // would suspend the server
+		return r, false
+	case readline.CharTranspose: // with less than two characters, the cursor would leave the line
+		return r, 2 <= si.lineLength
+	case readline.CharBckSearch, readline.CharFwdSearch: // there must be a line to return to
+		return r, si.edited
+	}
+	return r, true
+}
+
+// filterSelect filters the keys while selecting from completion candidates
+func (si *sessionInput) filterSelect(r rune) (rune, bool) {
+	switch r {
+	case readline.CharCtrlZ, readline.CharKill:
+		return r, false
+	case readline.CharTranspose:
+		return r, 2 <= si.lineLength
+	}
+	if si.fits {
+		return r, true
+	}
+	switch r { // there are no columns to move in
+	case readline.CharNext:
+		return readline.CharForward, true
+	case readline.CharPrev:
+		return readline.CharBackward, true
+	case readline.CharLineStart, readline.CharLineEnd:
+		return r, false
+	}
+	return r, true
+}
+
+// OnChange is called after every key was handled
+func (si *sessionInput) OnChange(line []rune, _ int, key rune) ([]rune, int, bool) {
+	switch key {
+	case 0: // a new line begins
+		return nil, 0, false
+	case readline.CharInterrupt, readline.CharDelete: // not added to the history
+	default:
+		si.edited = true
+	}
+	si.lineLength = len(line)
+	return nil, 0, false
+}
+
+// Do completes the line
+func (si *sessionInput) Do(line []rune, pos int) ([][]rune, int) {
+	candidates, length := si.completer.Do(line, pos)
+	// every character shown in front of the candidates must not be wider than a column
+	if length < runes.WidthAll(line[pos-length:pos]) {
+		length = 0
+	}
+	column := 0
+	for _, c := range candidates {
+		if w := runes.WidthAll(c); column < w {
+			column = w
+		}
+	}
+	si.fits = column+length+1 < si.width
+	return candidates, length
+}
-- 
2.43.0


From d743c4b93972678da388a915c7b9f58aa003bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:25 +0000
Subject: [PATCH 47/51] fix: remove reported the removal of a song from an
 empty playlist

---
 schedule/server_state_commands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 845d23e..f55749e 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -139,6 +139,9 @@ func (ss *serverState) removeCommand() ssh.Command {
 				return "", false
 			}
 			song := ss.playlist.RemoveSong(pos)
+			if song == "" {
+				return "no song removed: the playlist is empty", true
+			}
 			return fmt.Sprintf("removed song %s at position %d from playlist", song, pos), true
 		},
 	}
-- 
2.43.0


From 70fe2c4b5fec69251f1d577186c9fadbec72987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 48/51] fix: queueing several songs was not one step, and
 reversed them at positions before the start or near the largest one

---
 playback/playlist.go              | 22 ++++++++++++++++------
 schedule/server_state_commands.go |  9 ++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index d191235..c972ccb 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -214,26 +214,36 @@ func (pl *Playlist) Songs() []string {
 
 // AddSong adds a song at the end of the playlist.
 func (pl *Playlist) AddSong(song string) {
+	pl.AddSongs([]string{song})
+}
+
+// AddSongs adds songs at the end of the playlist.
+func (pl *Playlist) AddSongs(songs []string) {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
-	pl.songs = append(pl.songs, song)
+	pl.songs = append(pl.songs, songs...)
 }
 
 // InsertSong inserts a song into the playlist.
 // The index is clipped to the bounds of the playlist.
 func (pl *Playlist) InsertSong(song string, index int) {
+	pl.InsertSongs([]string{song}, index)
+}
+
+// InsertSongs inserts songs into the playlist, the first one at index.
+// The index is clipped to the bounds of the playlist.
+func (pl *Playlist) InsertSongs(songs []string, index int) {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
 	if index < 0 {
 		index = 0
 	}
 	if len(pl.songs) < index {
-		pl.songs = append(pl.songs, song)
-	} else {
-		pl.songs = append(pl.songs, "")
-		copy(pl.songs[index+1:], pl.songs[index:])
-		pl.songs[index] = song
+		index = len(pl.songs)
 	}
+	pl.songs = append(pl.songs, songs...)
+	copy(pl.songs[index+len(songs):], pl.songs[index:])
+	copy(pl.songs[index:], songs)
 }
 
 // RemoveSong remove the song at index from the playlist and returns the removed song.
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index f55749e..8e93480 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -57,15 +57,10 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 		return fmt.Sprintf("no song matches the glob pattern %s", songPattern), true
 	}
 
-	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
-		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
+		ss.playlist.InsertSongs(songs, pos)
 	} else {
-		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-	}
-
-	for i, s := range songs {
-		insert(s, i)
+		ss.playlist.AddSongs(songs)
 	}
 	return fmt.Sprintf("%d song(s) added to playlist: %s", len(songs), strings.Join(songs, ", ")), true
 }
-- 
2.43.0


From 340f034a57d0b1b9e3683ee660490fca503b8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 49/51] fix: a player that got audio before its clock was
 synchronised played it at the wrong time until the next break

---
 schedule/player.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/schedule/player.go b/schedule/player.go
index 4b373f9..0fcd9fb 100644
--- a/schedule/player.go
+++ b/schedule/player.go
@@ -9,20 +9,24 @@ import (
 
 // Player starts a music-sync player, using sender to communicate with the server
 func Player(sender comm.MessageSender) {
+	initialized := make(chan struct{})
 	go func() {
 		if err := playback.Init(SampleRate); err != nil {
 			logger.Fatalf("failed to initialized playback: %v", err)
 			os.Exit(1)
 		}
-		// not earlier: until then, chunks are not queued and the volume is reset
-		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}); err != nil {
-			logger.Errorf("failed to subscribe to audio channel")
-			os.Exit(1)
-		}
+		close(initialized)
 	}()
 
 	go func() {
 		syncTime(sender)
+		<-initialized
+		// not earlier: until then, chunks are not queued and the volume is reset, and with an unsynced clock chunks
+		// would be played at the wrong time
+		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}); err != nil {
+			logger.Errorf("failed to subscribe to audio channel")
+			os.Exit(1)
+		}
 		for range time.Tick(TimeSyncInterval) {
 			syncTime(sender)
 		}
-- 
2.43.0


From edff2581da2c3dd85a9fc5972035c449ab1b2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:57 +0000
Subject: [PATCH 50/51] fix: the announced playing state could differ from the
 stream if it changed at that moment; the current song could be read
 half-written

---
 playback/playlist.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index c972ccb..60982a2 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -22,8 +22,9 @@ type Playlist struct {
 	forceNext    chan bool
 	nanBreakSize int
 
-	playing     bool
-	currentSong string
+	playing     bool         // guarded by stateMutex
+	currentSong string       // guarded by stateMutex
+	stateMutex  sync.RWMutex // not held while locking songsMutex or pushing samples
 
 	sampleIndexRead  uint64
 	sampleIndexWrite uint64
@@ -52,7 +53,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 			continue
 		}
 
-		pl.currentSong = filename
+		pl.setCurrentSong(filename)
 
 		s, err := getStreamer(filename)
 		if err != nil {
@@ -97,13 +98,12 @@ func (pl *Playlist) songIndex() int {
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
-		go pl.newSongHandler(pl.sampleIndexWrite, pl.currentSong, int64(s.Len()))
+		go pl.newSongHandler(pl.sampleIndexWrite, pl.CurrentSong(), int64(s.Len()))
 	}
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -175,11 +175,15 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+// callPauseToggleHandler returns whether the samples from sampleIndexWrite on are those of the song, after it called the
+// handler if that changed. The samples must be pushed accordingly, even if playing changes in the meantime.
+func (pl *Playlist) callPauseToggleHandler() (playing bool) {
+	playing = pl.Playing()
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
@@ -286,19 +290,31 @@ func (pl *Playlist) Fill(low []float64, high []float64) uint64 {
 
 // Playing returns true if the playlist is currently playing audio.
 func (pl *Playlist) Playing() bool {
+	pl.stateMutex.RLock()
+	defer pl.stateMutex.RUnlock()
 	return pl.playing
 }
 
 // SetPlaying can set whether or not the playlist should be playing audio.
 func (pl *Playlist) SetPlaying(p bool) {
+	pl.stateMutex.Lock()
+	defer pl.stateMutex.Unlock()
 	pl.playing = p
 }
 
 // CurrentSong returns the song currently being played
 func (pl *Playlist) CurrentSong() string {
+	pl.stateMutex.RLock()
+	defer pl.stateMutex.RUnlock()
 	return pl.currentSong
 }
 
+func (pl *Playlist) setCurrentSong(filename string) {
+	pl.stateMutex.Lock()
+	defer pl.stateMutex.Unlock()
+	pl.currentSong = filename
+}
+
 // SetNewSongHandler sets the new song handler, which is called every time the playlist begins playing a new song
 func (pl *Playlist) SetNewSongHandler(nsh func(startSampleIndex uint64, filename string, songLength int64)) {
 	pl.newSongHandler = nsh
-- 
2.43.0


From 0434aad4693bfd06285447cc752f3e472fb840aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 51/51] fix: the playlist command names no current song while
 nothing is playing

The last song stayed the current one after the playlist ran empty, and entries
that cannot be played were shown as current song.
---
 playback/playlist.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 60982a2..f970245 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -43,18 +43,16 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 	silent := 0 // number of songs without any samples in a row
 	for !util.IsCanceled(ctx) {
 		if 0 < silent && len(pl.Songs()) <= silent {
-			pl.pushNanSamples(noSongNanSampleCount)
+			pl.pushNoSong()
 			silent = 0
 		}
 
 		filename := pl.nextSong()
 		if filename == "" {
-			pl.pushNanSamples(noSongNanSampleCount)
+			pl.pushNoSong()
 			continue
 		}
 
-		pl.setCurrentSong(filename)
-
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
@@ -63,6 +61,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 			continue
 		}
 
+		pl.setCurrentSong(filename)
 		start := pl.sampleIndexWrite
 		pl.pushStreamer(s)
 		if err := s.Close(); err != nil {
@@ -163,6 +162,12 @@ func (pl *Playlist) pushBuffer(buffer [][2]float64) {
 	}
 }
 
+// pushNoSong pushes silence while there is nothing to play.
+func (pl *Playlist) pushNoSong() {
+	pl.setCurrentSong("")
+	pl.pushNanSamples(noSongNanSampleCount)
+}
+
 func (pl *Playlist) pushNanBreak() {
 	for i := 0; i < pl.nanBreakSize; i++ {
 		pl.pushSample(math.NaN(), math.NaN())
-- 
2.43.0

