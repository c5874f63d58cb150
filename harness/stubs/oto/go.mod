module github.com/hajimehoshi/oto

go 1.14
