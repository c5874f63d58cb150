package schedule

import "github.com/LogicalOverflow/music-sync/comm"

// Only names that the package's own tests use appear here.

// VerifPrune gives access to the pause history of a server.
type VerifPrune struct{ ss *serverState }

func VerifNewPrune() *VerifPrune { return &VerifPrune{&serverState{pauses: []*comm.PauseInfo{}}} }

func (v *VerifPrune) SetPauses(p []*comm.PauseInfo) { v.ss.pauses = p }
func (v *VerifPrune) SetSong(s *comm.NewSongInfo)   { v.ss.newestSong = s }
func (v *VerifPrune) Prune()                        { v.ss.removeOldPauses() }
func (v *VerifPrune) Removable() int                { return v.ss.removablePauses() }
func (v *VerifPrune) Send(s comm.MessageSender)     { v.ss.sendPauses(s) }
