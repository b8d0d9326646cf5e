package vh

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Child is this binary run again, talking in lines.
type Child struct {
	Cmd   *exec.Cmd
	in    io.WriteCloser
	Lines chan string
	err   bytes.Buffer
	mu    sync.Mutex
	done  chan struct{}
	state *os.ProcessState
	Log   []string // everything seen so far
}

// InChild tells the role this process was started for, if it is a child.
func InChild() string { return os.Getenv("VH_CHILD") }

type lockedWriter struct{ c *Child }

func (w lockedWriter) Write(p []byte) (int, error) {
	w.c.mu.Lock()
	defer w.c.mu.Unlock()
	if w.c.err.Len() < 1<<20 {
		w.c.err.Write(p)
	}
	return len(p), nil
}

// Spawn starts a child with the given role.
func Spawn(role string, env ...string) *Child {
	exe, err := os.Executable()
	if err != nil {
		Inconclusive("no executable: %v", err)
	}
	c := &Child{Lines: make(chan string, 100000), done: make(chan struct{})}
	c.Cmd = exec.Command(exe, "-test.run=^$")
	c.Cmd.Env = append(append(os.Environ(), "VH_CHILD="+role, "VH_OUT="), env...)
	c.Cmd.Stderr = lockedWriter{c}
	c.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if c.in, err = c.Cmd.StdinPipe(); err != nil {
		Inconclusive("child: %v", err)
	}
	out, err := c.Cmd.StdoutPipe()
	if err != nil {
		Inconclusive("child: %v", err)
	}
	if err := c.Cmd.Start(); err != nil {
		Inconclusive("child: %v", err)
	}
	go func() {
		r := bufio.NewReaderSize(out, 1<<16)
		for {
			l, err := r.ReadString('\n')
			if strings.HasPrefix(l, "@") { // ours
				c.Lines <- strings.TrimSuffix(l[1:], "\n")
			} else if l != "" {
				_, _ = lockedWriter{c}.Write([]byte(l))
			}
			if err != nil {
				break
			}
		}
		close(c.Lines)
		_ = c.Cmd.Wait()
		c.state = c.Cmd.ProcessState
		close(c.done)
	}()
	return c
}

// Send writes a command to the child.
func (c *Child) Send(f string, args ...any) {
	_, _ = fmt.Fprintf(c.in, f+"\n", args...)
}

// Stderr is what the child wrote besides its lines.
func (c *Child) Stderr() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err.String()
}

// Next returns the next line, ok is false if the child has ended or nothing came in time.
func (c *Child) Next(d time.Duration) (string, bool) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case l, ok := <-c.Lines:
		if ok {
			c.Log = append(c.Log, l)
		}
		return l, ok
	case <-tm.C:
		return "", false
	}
}

// Ended tells whether the child is gone.
func (c *Child) Ended() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

// WaitExit waits for the end and returns the exit code (-1 if killed by a signal or not ended in time).
func (c *Child) WaitExit(d time.Duration) (code int, ok bool) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	for {
		select {
		case l, more := <-c.Lines: // never let it block on its output
			if more {
				c.Log = append(c.Log, l)
			} else {
				select {
				case <-c.done:
					return c.state.ExitCode(), true
				case <-tm.C:
					return -1, false
				}
			}
		case <-tm.C:
			return -1, false
		}
	}
}

// Kill ends the child.
func (c *Child) Kill() {
	_ = c.in.Close()
	_ = c.Cmd.Process.Kill()
	for range c.Lines {
	}
	<-c.done
}

// Dump makes the child print its goroutines and end, and returns them.
func (c *Child) Dump() string {
	n := len(c.Stderr())
	_ = c.Cmd.Process.Signal(syscall.SIGABRT) // the runtime prints them
	c.WaitExit(10 * time.Second)
	e := c.Stderr()
	if n < len(e) {
		e = e[n:]
	}
	return e
}

// Say prints a line for the parent.
func Say(f string, args ...any) {
	sayMu.Lock()
	defer sayMu.Unlock()
	_, _ = os.Stdout.WriteString("@" + strings.ReplaceAll(fmt.Sprintf(f, args...), "\n", "\\n") + "\n")
}

var sayMu sync.Mutex

// HangLimit is how long something may take before it counts as stuck.
func HangLimit() time.Duration { return time.Duration(envInt("VH_HANG_SECONDS", 40)) * time.Second }

// IdleLimit is how long a client may keep an idle connection: the server closes it after 30 s, and a request sent at that time
// would be lost.
const IdleLimit = 5 * time.Second

// GoID identifies this goroutine.
func GoID() string { return goid() }

// Parked waits until the goroutine is waiting for something (or gone).
func Parked(id string) {
	same := 0
	time.Sleep(time.Millisecond) // reading stacks stops the world, which (rarely) hangs forever while signals are being set up
	for i := 0; i < 20000 && same < 3; i++ {
		state := "gone"
		if g := stackOf(id); g != "" {
			state = g[strings.IndexByte(g, '[')+1 : strings.IndexByte(g, ']')]
		}
		switch strings.Split(state, ",")[0] {
		case "gone", "select", "chan receive", "sync.Cond.Wait", "chan send", "IO wait", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire", "sync.WaitGroup.Wait":
			same++
		default:
			same = 0
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// RuntimeHang tells from the dump of a child that the Go runtime itself is stuck, whatever the code under test does.
func RuntimeHang(dump string) bool { return strings.Contains(dump, "[stopping the world") }
