module github.com/faiface/beep

go 1.14

require (
	github.com/hajimehoshi/go-mp3 v0.1.1
	github.com/pkg/errors v0.9.1
)
