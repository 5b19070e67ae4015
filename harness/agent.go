package main

import (
	"bytes"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"
	"time"
)

func init() { commands["agent"] = agentCmd }

// An agent runs programs inside a node's namespaces on behalf of the driver (see lib/cluster.sh).
type agentReq struct {
	Op      string   // run, start, kill, status
	Argv    []string `json:",omitempty"`
	Env     []string `json:",omitempty"`
	Dir     string   `json:",omitempty"`
	Timeout float64  `json:",omitempty"` // seconds, for run
	Log     string   `json:",omitempty"` // for start
	Name    string   `json:",omitempty"` // for start, kill, status
}

type agentRes struct {
	RC      int // -1: did not end in time
	Out     string
	Err     string
	Running bool
	Pid     int
	Failed  string
}

func agentCmd(args []string) {
	l, err := net.Listen("unix", args[0])
	must(err)
	type proc struct {
		cmd  *exec.Cmd
		done chan struct{}
	}
	var lock sync.Mutex
	procs := map[string]*proc{}
	parent := os.Getppid()
	go func() {
		for { // end with the driver
			time.Sleep(500 * time.Millisecond)
			if os.Getppid() != parent {
				os.Exit(0)
			}
		}
	}()
	serve := func(c net.Conn) {
		defer c.Close()
		var q agentReq
		if json.NewDecoder(c).Decode(&q) != nil {
			return
		}
		var r agentRes
		switch q.Op {
		case "run":
			cmd := exec.Command(q.Argv[0], q.Argv[1:]...)
			cmd.Env = append(os.Environ(), q.Env...)
			cmd.Dir = q.Dir
			var o, e bytes.Buffer
			cmd.Stdout, cmd.Stderr = &o, &e
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			err := cmd.Start()
			if err != nil {
				r.Failed = err.Error()
				break
			}
			done := make(chan struct{})
			go func() { cmd.Wait(); close(done) }()
			select {
			case <-done:
				r.RC = cmd.ProcessState.ExitCode()
			case <-time.After(time.Duration(q.Timeout * float64(time.Second))):
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(2 * time.Second):
					cmd.Process.Kill()
					<-done
				}
				r.RC = -1
			}
			r.Out, r.Err = o.String(), e.String()
		case "start":
			cmd := exec.Command(q.Argv[0], q.Argv[1:]...)
			cmd.Env = append(os.Environ(), q.Env...)
			cmd.Dir = q.Dir
			f, err := os.OpenFile(q.Log, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
			if err != nil {
				r.Failed = err.Error()
				break
			}
			cmd.Stdout, cmd.Stderr = f, f
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			p := &proc{cmd, make(chan struct{})}
			started := make(chan error)
			go func() {
				// the thread that starts a process must live as long as it, because of Pdeathsig
				lockThread()
				err := cmd.Start()
				started <- err
				if err == nil {
					cmd.Wait()
				}
				close(p.done)
				f.Close()
			}()
			if err := <-started; err != nil {
				r.Failed = err.Error()
				break
			}
			lock.Lock()
			procs[q.Name] = p
			lock.Unlock()
		case "get":
			h := http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
			res, err := h.Get(q.Argv[0])
			if err == nil {
				b, _ := io.ReadAll(res.Body)
				res.Body.Close()
				r.Out = string(b)
			}
		case "kill", "status", "quit":
			lock.Lock()
			p := procs[q.Name]
			lock.Unlock()
			if p == nil {
				r.Failed = "no such process"
				break
			}
			if q.Op == "kill" {
				if len(q.Argv) > 0 {
					n, _ := strconv.Atoi(q.Argv[0])
					p.cmd.Process.Signal(syscall.Signal(n))
					select {
					case <-p.done:
					case <-time.After(5 * time.Second):
					}
				}
				p.cmd.Process.Kill()
				<-p.done
			}
			if q.Op == "quit" { // with a stack dump in the log
				p.cmd.Process.Signal(syscall.SIGQUIT)
				<-p.done
			}
			select {
			case <-p.done:
				r.RC = p.cmd.ProcessState.ExitCode()
			default:
				r.Running = true
				r.Pid = p.cmd.Process.Pid
			}
		}
		json.NewEncoder(c).Encode(r)
	}
	for {
		c, err := l.Accept()
		must(err)
		go serve(c)
	}
}

// machine is a node of the cluster, as the driver sees it
type machine struct {
	Dir    string
	K      int
	Memory int64
	Hoard  bool // it never collects its garbage, unless it is asked to
}

func (m *machine) IP() string {
	if m.K == 1 {
		return "10.77.0.1"
	}
	return "10.77.0." + itoa(20+m.K)
}

func (m *machine) ask(q agentReq) agentRes {
	c, err := net.Dial("unix", filepath.Join(m.Dir, "agent"))
	must(err)
	defer c.Close()
	must(json.NewEncoder(c).Encode(q))
	var r agentRes
	must(json.NewDecoder(c).Decode(&r))
	if r.Failed != "" {
		die("agent: %s: %v", r.Failed, q)
	}
	return r
}

func (m *machine) Home() string { return filepath.Join(m.Dir, "home") }
func (m *machine) CatDir() string {
	return filepath.Join(m.Home(), ".flu-network", "catalogue")
}
func (m *machine) DlDir() string {
	return filepath.Join(m.Home(), ".flu-network", "downloads")
}
func (m *machine) Sock() string { return filepath.Join(m.Dir, "tmp", "flu-network.sock") }
func (m *machine) Log() string  { return filepath.Join(m.Dir, "daemon.log") }

// startDaemon starts the real binary and waits until it serves its command line
func (m *machine) startDaemon(bin string) {
	if !m.tryStart(bin) && m.running() {
		die("the daemon does not serve %s", m.Sock())
	}
}

// launch starts the real binary
func (m *machine) launch(bin string) {
	argv := []string{bin, "-d"}
	if m.Memory > 0 { // of address space
		argv = append([]string{"prlimit", "--as=" + strconv.FormatInt(m.Memory, 10)}, argv...)
	}
	gogc := "100"
	if m.Hoard {
		gogc = "off"
	}
	m.ask(agentReq{Op: "start", Name: "daemon", Argv: argv, Log: m.Log(), Dir: m.Home(),
		Env: []string{"GOTRACEBACK=all", "GORACE=halt_on_error=1", "GOMAXPROCS=4", "GOGC=" + gogc}})
}

// tryStart also says whether it serves in the end
func (m *machine) tryStart(bin string) bool {
	m.launch(bin)
	for i := 0; i < 1000; i++ {
		if c, err := net.Dial("unix", m.Sock()); err == nil {
			c.Close()
			time.Sleep(30 * time.Millisecond) // the UDP socket
			return m.running()
		}
		if !m.running() {
			return false // the trace will show it
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func (m *machine) running() bool { return m.ask(agentReq{Op: "status", Name: "daemon"}).Running }
func (m *machine) killDaemon()   { m.ask(agentReq{Op: "kill", Name: "daemon"}) }
func (m *machine) signalDaemon(s syscall.Signal) {
	m.ask(agentReq{Op: "kill", Name: "daemon", Argv: []string{itoa(int(s))}})
}

func (m *machine) cli(bin string, timeout float64, args ...string) agentRes {
	return m.cliIn("", bin, timeout, args...)
}

// cliIn runs a command typed in some directory
func (m *machine) cliIn(dir, bin string, timeout float64, args ...string) agentRes {
	if dir == "" {
		dir = m.Home()
	}
	return m.ask(agentReq{Op: "run", Argv: append([]string{bin}, args...), Timeout: timeout, Dir: dir,
		Env: []string{"GOTRACEBACK=all", "GORACE=atexit_sleep_ms=0"}})
}

// ip changes the network of the machine
func (m *machine) ip(args ...string) {
	r := m.ask(agentReq{Op: "run", Argv: append([]string{"ip"}, args...), Timeout: 10, Dir: "/"})
	if r.RC != 0 {
		die("ip %v: %s %s", args, r.Out, r.Err)
	}
}
