package main

import (
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"syscall"
	"time"

	"golang.org/x/sys/unix"
)

// ptySession lets a process have a controlling terminal of its own.
func ptySession(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
}

// Pty is a pseudo-terminal.  Everything about it happens in one goroutine;
// only the slave is used by others.
type Pty struct {
	master int
	slave  *os.File
	out    []byte // what came out at the master side
}

// ignoreSignals keeps the terminal's signals from ending this process.
func ignoreSignals() {
	signal.Ignore(unix.SIGHUP, unix.SIGINT, unix.SIGQUIT, unix.SIGTSTP, unix.SIGTTIN, unix.SIGTTOU)
}

// openPty makes a pseudo-terminal; control makes it the controlling terminal.
func openPty(control bool) *Pty {
	ignoreSignals()
	m, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC|unix.O_NONBLOCK, 0)
	if err != nil {
		fatal("/dev/ptmx:", err)
	}
	if err := unix.IoctlSetPointerInt(m, unix.TIOCSPTLCK, 0); err != nil {
		fatal("unlocking the pseudo-terminal:", err)
	}
	n, err := unix.IoctlGetInt(m, unix.TIOCGPTN)
	if err != nil {
		fatal("the number of the pseudo-terminal:", err)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		fatal("the slave:", err)
	}
	p := &Pty{master: m, slave: s}
	if control {
		// A terminal closed before can take a moment to let go of us.
		for i := 0; ; i++ {
			err := unix.IoctlSetInt(int(s.Fd()), unix.TIOCSCTTY, 0)
			if err == nil {
				break
			}
			if i > 1000 {
				fatal("the controlling terminal:", err)
			}
			time.Sleep(time.Millisecond)
		}
	}
	return p
}

// close hangs up: whoever still reads from the terminal gets an error.
func (p *Pty) close() {
	unix.Close(p.master)
	p.slave.Close()
}

func (p *Pty) termios() unix.Termios {
	t, err := unix.IoctlGetTermios(int(p.slave.Fd()), unix.TCGETS)
	if err != nil {
		fatal("reading the terminal mode:", err)
	}
	return *t
}

// mode is the terminal mode, nothing after the terminal was closed.
func (p *Pty) mode() unix.Termios {
	t, err := unix.IoctlGetTermios(int(p.slave.Fd()), unix.TCGETS)
	if err != nil {
		return unix.Termios{}
	}
	return *t
}

func (p *Pty) setTermios(t unix.Termios) {
	if err := unix.IoctlSetTermios(int(p.slave.Fd()), unix.TCSETS, &t); err != nil {
		fatal("setting the terminal mode:", err)
	}
}

func (p *Pty) resize(w, h int) {
	ws := unix.Winsize{Row: uint16(h), Col: uint16(w)}
	if err := unix.IoctlSetWinsize(p.master, unix.TIOCSWINSZ, &ws); err != nil {
		fatal("setting the terminal size:", err)
	}
}

// raw says whether a read is in progress: while none is, control characters
// make signals.
func (p *Pty) raw() bool { return p.termios().Lflag&unix.ISIG == 0 }

func readable(fd int) bool {
	fds := []unix.PollFd{{Fd: int32(fd), Events: unix.POLLIN}}
	for {
		n, err := unix.Poll(fds, 0)
		if err == unix.EINTR {
			continue
		}
		return err == nil && n > 0 && fds[0].Revents&unix.POLLIN != 0
	}
}

// pending says whether there is input nobody has read yet.
func (p *Pty) pending() bool { return readable(int(p.slave.Fd())) }

// drain takes the output there is.
func (p *Pty) drain() {
	var buf [4096]byte
	for readable(p.master) {
		n, err := unix.Read(p.master, buf[:])
		if err == unix.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return
		}
		p.out = append(p.out, buf[:n]...)
	}
}

// write types.
func (p *Pty) write(s string) {
	b := []byte(s)
	for len(b) > 0 {
		n, err := unix.Write(p.master, b)
		switch {
		case err == unix.EAGAIN:
			p.drain()
			time.Sleep(50 * time.Microsecond)
		case err == unix.EINTR:
		case err != nil:
			fatal("typing:", err)
		default:
			b = b[n:]
		}
	}
}

// until waits; the time limit of the case ends waiting for what never comes.
func (p *Pty) until(cond func() bool) {
	for i := 0; !cond(); i++ {
		p.drain()
		if i > 20 {
			time.Sleep(20 * time.Microsecond)
		}
	}
}
