// Generated automatically.  DO NOT HAND-EDIT.

package d210

import "github.com/gdamore/tcell/terminfo"

func init() {

	// Data General DASHER D210 series
	terminfo.AddTerminfo(&terminfo.Terminfo{
		Name:        "d210",
		Aliases:     []string{"d214"},
		Columns:     80,
		Lines:       24,
		Bell:        "\a",
		Clear:       "\x1b[2J",
		AttrOff:     "\x1b[m",
		Underline:   "\x1b[4m",
		Bold:        "\x1b[4;7m",
		Dim:         "\x1b[2m",
		Blink:       "\x1b[5m",
		Reverse:     "\x1b[7m",
		PadChar:     "\x00",
		SetCursor:   "\x1b[%i%p1%d;%p2%dH",
		CursorBack1: "\b",
		CursorUp1:   "\x1b[A",
		KeyUp:       "\x1b[A",
		KeyDown:     "\x1b[B",
		KeyRight:    "\x1b[C",
		KeyLeft:     "\x1b[D",
		KeyHome:     "\x1b[H",
		KeyF1:       "\x1b[001z",
		KeyF2:       "\x1b[002z",
		KeyF3:       "\x1b[003z",
		KeyF4:       "\x1b[004z",
		KeyF5:       "\x1b[005z",
		KeyF6:       "\x1b[006z",
		KeyF7:       "\x1b[007z",
		KeyF8:       "\x1b[008z",
		KeyF9:       "\x1b[009z",
		KeyF10:      "\x1b[010z",
		KeyF11:      "\x1b[011z",
		KeyF12:      "\x1b[012z",
		KeyF13:      "\x1b[013z",
		KeyF14:      "\x1b[014z",
		KeyF15:      "\x1b[000z",
		KeyF16:      "\x1b[101z",
		KeyF17:      "\x1b[102z",
		KeyF18:      "\x1b[103z",
		KeyF19:      "\x1b[104z",
		KeyF20:      "\x1b[105z",
		KeyF21:      "\x1b[106z",
		KeyF22:      "\x1b[107z",
		KeyF23:      "\x1b[108z",
		KeyF24:      "\x1b[109z",
		KeyF25:      "\x1b[110z",
		KeyF26:      "\x1b[111z",
		KeyF27:      "\x1b[112z",
		KeyF28:      "\x1b[113z",
		KeyF29:      "\x1b[114z",
		KeyF30:      "\x1b[100z",
		KeyF31:      "\x1b[201z",
		KeyF32:      "\x1b[202z",
		KeyF33:      "\x1b[203z",
		KeyF34:      "\x1b[204z",
		KeyF35:      "\x1b[205z",
		KeyF36:      "\x1b[206z",
		KeyF37:      "\x1b[207z",
		KeyF38:      "\x1b[208z",
		KeyF39:      "\x1b[209z",
		KeyF40:      "\x1b[210z",
		KeyF41:      "\x1b[211z",
		KeyF42:      "\x1b[212z",
		KeyF43:      "\x1b[213z",
		KeyF44:      "\x1b[214z",
		KeyF45:      "\x1b[200z",
		KeyF46:      "\x1b[301z",
		KeyF47:      "\x1b[302z",
		KeyF48:      "\x1b[303z",
		KeyF49:      "\x1b[304z",
		KeyF50:      "\x1b[305z",
		KeyF51:      "\x1b[306z",
		KeyF52:      "\x1b[307z",
		KeyF53:      "\x1b[308z",
		KeyF54:      "\x1b[309z",
		KeyF55:      "\x1b[310z",
		KeyF56:      "\x1b[311z",
		KeyF57:      "\x1b[312z",
		KeyF58:      "\x1b[313z",
		KeyF59:      "\x1b[314z",
		KeyF60:      "\x1b[300z",
		KeyPrint:    "\x1b[i",
		KeyClear:    "\x1b[2J",
	})
}
