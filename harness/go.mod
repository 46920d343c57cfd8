module verif/harness

go 1.23

require (
	github.com/atotto/clipboard v0.1.4
	github.com/mattn/go-runewidth v0.0.16
	github.com/nyaosorg/go-readline-ny v0.0.0
	golang.org/x/sys v0.26.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/mattn/go-tty v0.0.7 // indirect
	github.com/nyaosorg/go-box/v2 v2.2.1 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	golang.org/x/term v0.24.0 // indirect
	golang.org/x/text v0.19.0 // indirect
)

replace github.com/nyaosorg/go-readline-ny => /repo

replace github.com/atotto/clipboard => ./fakeclip
