// Package oto is a stand-in for github.com/hajimehoshi/oto: instead of
// driving a sound card it hands every written buffer to Sink, which the
// harness installs, and lets Sink decide how long the "device" takes.
package oto

import "time"

// Sink receives each written buffer. It may block, as a sound card does.
var Sink func(buf []byte)

// NewContextErr is returned by NewContext when set.
var NewContextErr error

// OpenDelay is the time NewContext takes.
var OpenDelay time.Duration

// Params of the last NewContext call.
var SampleRate, ChannelNum, BitDepth, BufferSize int

// Context mirrors oto.Context.
type Context struct{}

// Player mirrors oto.Player.
type Player struct{}

// NewContext mirrors oto.NewContext.
func NewContext(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes int) (*Context, error) {
	if OpenDelay > 0 {
		time.Sleep(OpenDelay)
	}
	if NewContextErr != nil {
		return nil, NewContextErr
	}
	SampleRate, ChannelNum, BitDepth, BufferSize = sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes
	return &Context{}, nil
}

// NewPlayer mirrors Context.NewPlayer.
func (c *Context) NewPlayer() *Player { return &Player{} }

// Close mirrors Context.Close.
func (c *Context) Close() error { return nil }

// Write hands buf to Sink.
func (p *Player) Write(buf []byte) (int, error) {
	if Sink != nil {
		Sink(buf)
	}
	return len(buf), nil
}

// Close mirrors Player.Close.
func (p *Player) Close() error { return nil }

// NewPlayer mirrors the package level constructor.
func NewPlayer(sampleRate, channelNum, bytesPerSample, bufferSizeInBytes int) (*Player, error) {
	if _, err := NewContext(sampleRate, channelNum, bytesPerSample, bufferSizeInBytes); err != nil {
		return nil, err
	}
	return &Player{}, nil
}
