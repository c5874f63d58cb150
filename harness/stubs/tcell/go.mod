module github.com/gdamore/tcell

go 1.12

require (
	github.com/gdamore/encoding v1.0.0
	github.com/lucasb-eyer/go-colorful v1.0.2
	github.com/mattn/go-runewidth v0.0.4
	golang.org/x/sys v0.0.0-20190626150813-e07cf5db2756
	golang.org/x/text v0.3.0
)
