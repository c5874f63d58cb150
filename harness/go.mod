module verif

go 1.24

require (
	github.com/LogicalOverflow/music-sync v0.0.0
	github.com/faiface/beep v1.0.2
	github.com/gdamore/tcell v1.3.0
	github.com/gliderlabs/ssh v0.3.0
	github.com/golang/protobuf v1.4.2
	github.com/hajimehoshi/oto v0.6.1
	github.com/mattn/go-runewidth v0.0.4
	github.com/urfave/cli v1.22.4
	golang.org/x/crypto v0.0.0-20200221231518-2aa609cf4a9d
	pgregory.net/rapid v1.3.0
)

require (
	github.com/anmitsu/go-shlex v0.0.0-20200514113438-38f4b401e2be // indirect
	github.com/antlr/antlr4 v0.0.0-20200712162734-eb1adaa8a7a6 // indirect
	github.com/aristanetworks/goarista v0.0.0-20200609010056-95bcf8053598 // indirect
	github.com/chzyer/readline v0.0.0-20180603132655-2972be24d48e // indirect
	github.com/cpuguy83/go-md2man/v2 v2.0.0-20190314233015-f79a8a8ca69d // indirect
	github.com/dhowden/tag v0.0.0-20200412032933-5d76b8eaae27 // indirect
	github.com/gdamore/encoding v1.0.0 // indirect
	github.com/hajimehoshi/go-mp3 v0.1.1 // indirect
	github.com/lucasb-eyer/go-colorful v1.0.2 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/russross/blackfriday/v2 v2.0.1 // indirect
	github.com/shurcooL/sanitized_anchor_name v1.0.0 // indirect
	golang.org/x/sys v0.0.0-20200219091948-cb0a6d8edb6c // indirect
	golang.org/x/text v0.3.2 // indirect
	google.golang.org/protobuf v1.23.0 // indirect
)

replace github.com/LogicalOverflow/music-sync => /repo

replace github.com/hajimehoshi/oto => ./stubs/oto

replace github.com/faiface/beep => ./stubs/beep

replace github.com/gdamore/tcell => ./stubs/tcell
