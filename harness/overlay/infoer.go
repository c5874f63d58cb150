package infoermain

import (
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
)

// Only names that the package's own tests use appear here.

func VerifMain() { main() }

// VerifInfo is the computed playback information.
type VerifInfo struct {
	File                   string
	Start                  uint64
	Length                 int64
	Sample, Pauses         int64
	Playing                bool
	Volume                 float64
	SongLength, TimeInSong time.Duration
	Progress               float64
	Title, Artist, Album   string
	Lyrics                 []metadata.LyricsLine
}

// VerifReset forgets everything received.
func VerifReset() {
	currentState.Songs = nil
	currentState.Chunks = nil
	currentState.Pauses = nil
	currentState.Volume = 0
}

// VerifHandler is the handler for received messages.
func VerifHandler() comm.TypedPackageHandler { return newInfoerPackageHandler() }

// VerifInfoAt computes the information for a time.
func VerifInfoAt(now int64) VerifInfo {
	i := currentState.Info(now)
	return VerifInfo{i.CurrentSong.filename, i.CurrentSong.startIndex, i.CurrentSong.length, i.CurrentSample, i.PausesInCurrentSong,
		i.Playing, i.Volume, i.SongLength, i.TimeInSong, i.ProgressInSong,
		i.CurrentSong.metadata.Title, i.CurrentSong.metadata.Artist, i.CurrentSong.metadata.Album, i.CurrentSong.lyrics}
}

// VerifLyrics computes the lyrics area.
func VerifLyrics(height int, lyrics []metadata.LyricsLine, t time.Duration) []string {
	return lyricsHistory(height, upcomingSong{lyrics: lyrics}, t)
}
