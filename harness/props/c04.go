package props

import (
	"time"

	"pgregory.net/rapid"
	"verif/pbt"
)

func init() {
	pbt.Register(pbt.Property{ID: "C04", Targets: []pbt.Target{
		{Name: "playlist-stream", Mode: pbt.Fake, Run: runSim, Quick: 800, Thorough: 40000, Timeout: 40 * time.Second,
			Gen: func(t *rapid.T) interface{} {
				return genSim(t, simPlan{appends: true, maxOps: 8})
			},
			Rule: "the real server in virtual time plays 1-6 songs of 1 sample to 2 s with any chunk and break size while songs are appended: the stream, sample by sample, and the song announcements against the playlist; non-trivial: two songs begin, or the playing state changes three times"},
		{Name: "playlist-edited", Mode: pbt.Fake, Run: runSim, Quick: 500, Thorough: 30000, Timeout: 40 * time.Second,
			Gen: func(t *rapid.T) interface{} {
				return genSim(t, simPlan{appends: true, edits: true, maxOps: 12})
			},
			Rule: "the same while entries are inserted and removed anywhere: no edit cuts the song that is playing; non-trivial: two songs begin, or the playing state changes three times"},
		{Name: "append-threads", Mode: pbt.Pure, Gen: genThreads(false, false, true), Run: runThreads, Quick: 400, Thorough: 100000, Timeout: 60 * time.Second,
			Rule: "the real playlist on real threads: one streams, one reads, one appends songs, others ask for the current song: the stream sample by sample, the announcements and the answers, a third of the cases as if it had been running for long; non-trivial: more than three songs begin"},
	}})
	pbt.Register(pbt.Property{ID: "C05", Targets: []pbt.Target{
		{Name: "pause-stream", Mode: pbt.Fake, Run: runSim, Quick: 800, Thorough: 50000, Timeout: 40 * time.Second,
			Gen: func(t *rapid.T) interface{} {
				return genSim(t, simPlan{pauses: true, appends: true, maxOps: 14})
			},
			Rule: "the real server in virtual time with any history of pause and resume commands (also in bursts, in breaks, before the first song): the stream sample by sample and the announcements; non-trivial: two songs begin, or the playing state changes three times"},
		{Name: "command-threads", Mode: pbt.Fresh, Gen: genServerThreads(false), Run: runServerThreads, Quick: 400, Thorough: 10000, Timeout: 60 * time.Second,
			Rule: "the server on real threads streams up to 10 million samples a second while its pause, resume and (in a quarter of the cases) jump commands run as fast as they can: the same oracle on the chunks and announcements broadcast; non-trivial: two songs begin and three changes are announced"},
		{Name: "toggle-threads", Mode: pbt.Pure, Gen: genThreads(false, true, false), Run: runThreads, Quick: 800, Thorough: 100000, Timeout: 60 * time.Second,
			Rule: "the real playlist on real threads: one streams, one reads, one pauses and resumes up to 400 times as fast as it can: no song sample is lost or moved, and the announced changes agree with every sample of the stream; non-trivial: more than three songs begin"},
	}})
	pbt.Register(pbt.Property{ID: "C06", Targets: []pbt.Target{
		{Name: "jump-stream", Mode: pbt.Fake, Run: runSim, Quick: 700, Thorough: 50000, Timeout: 40 * time.Second,
			Gen: func(t *rapid.T) interface{} {
				return genSim(t, simPlan{jumps: true, maxOps: 10})
			},
			Rule: "the real server in virtual time with jumps to positions inside, beyond and before the playlist, single and in bursts, while playing, in breaks and while nothing plays: every command answers at once and the stream goes where the last jump pointed; non-trivial: two songs begin, or the playing state changes three times"},
		{Name: "jump-paused", Mode: pbt.Fake, Run: runSim, Quick: 500, Thorough: 50000, Timeout: 40 * time.Second,
			Gen: func(t *rapid.T) interface{} {
				return genSim(t, simPlan{jumps: true, pauses: true, edits: rapid.Bool().Draw(t, "edits"), maxOps: 12})
			},
			Rule: "the same mixed with pauses, resumes and edits; non-trivial: two songs begin, or the playing state changes three times"},
		{Name: "jump-threads", Mode: pbt.Pure, Gen: genThreads(true, true, false), Run: runThreads, Quick: 600, Thorough: 100000, Timeout: 60 * time.Second,
			Rule: "the real playlist on real threads: one streams, one reads, one pauses and resumes, one jumps up to 60 times as fast as it can: every song that begins is the next one or the target of a jump that is left, cut only by a jump, and the last jump is followed; non-trivial: more than three songs begin"},
	}})
}
