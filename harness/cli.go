package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/flu-network/client/catalogue"
)

func init() { commands["cli"] = cliCmd }

// cliHost is another node of the network, as seen by the one that runs commands
type cliHost struct {
	IP     int
	List   string // how it answers requests for listings: ok, silent, cut, type, junk, empty
	Disc   int    // how often it answers discoveries
	Port   int    // the port that it says it has
	Files  []cliFile
	Chunks map[string][]int // per hash: chunks that it says it has
}

type cliFile struct {
	Hash  string
	Size  uint64
	Csize uint32
	Count uint32
	Have  uint32
	Name  string
}

type cliArg struct {
	Kind string // path, hash, ip, odd, ip6, bad
	S    string // as given; a path is below the home directory
	Is   string // what it is: the address, the hash
	From string // path: typed in this directory, and relative to it
}

type cliStep struct {
	Op      string // cli, write, remove, mkdir, stop, start, offline, online, abort, burst, second, cut, flash, fresh
	Cmd     string
	Args    []cliArg
	Sure    int // it works: try again if it does not. chims: this many answers
	Path    string
	C       int
	Burst   []cliStep
	Timeout float64
}

type cliEntry struct {
	C    int
	Held []int // nil: it is shared
	Name string
}

type cliHistory struct {
	Entries []cliEntry
	Steps   []cliStep
}

type cliJob struct {
	Bin       string
	Work      string
	Seed      int64
	Contents  []catContent
	Hosts     []cliHost
	Histories []cliHistory
}

type cliWorld struct {
	*cliJob
	*catWorld
	m      *machine
	h      *history
	events []M
	up     bool

	offline bool
	late    int32 // how many commands have not come to an end
}

func (f *cliFile) wire() wfile {
	h, err := hex.DecodeString(f.Hash)
	must(err)
	be := binary.BigEndian
	return wfile{Size: ints(be.AppendUint64(nil, f.Size)), Count: ints(be.AppendUint32(nil, f.Count)), Csize: ints(be.AppendUint32(nil, f.Csize)),
		Have: ints(be.AppendUint32(nil, f.Have)), Hash: ints(h), Name: ints([]byte(f.Name))}
}

const allHashes = "ffffffffffffffffffffffffffffffffffffffff"

// host answers requests
func (w *cliWorld) host(h *cliHost) {
	c := listenOn("10.77.0."+itoa(h.IP), 61696)
	for {
		b := make([]byte, 2048)
		n, from, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		if n < 23 || b[0] != 2 || h.List == "silent" {
			continue
		}
		hash := hex.EncodeToString(b[3:23])
		m := wmsg{T: 3, ID: int(binary.BigEndian.Uint16(b[1:3])), Files: []wfile{}}
		for i := range h.Files {
			if hash == allHashes || hash == h.Files[i].Hash {
				m.Files = append(m.Files, h.Files[i].wire())
			}
		}
		raw := m.encode()
		switch h.List {
		case "cut":
			raw = raw[:1+len(raw)/2-1]
			if len(m.Files) == 0 {
				raw = raw[:2]
			}
		case "type":
			raw = (&wmsg{T: 1, ID: m.ID, Addr: []int{10, 77, 0, h.IP}, Port: 61696, Chunks: []int{0, 0}}).encode()
		case "junk":
			raw = []byte{200, 1, 2, 3}
		case "empty":
			raw = []byte{}
		}
		c.WriteToUDP(raw, from)
	}
}

func (w *cliWorld) discoveries() {
	c := listenOn("255.255.255.255", 61696)
	out := listenOn("10.77.0.17", 0)
	for {
		b := make([]byte, 2048)
		n, from, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		if n < 24 || b[0] != 0 || !from.IP.Equal(net.ParseIP(w.m.IP())) {
			continue
		}
		hash := hex.EncodeToString(b[3:23])
		for i := range w.Hosts {
			h := &w.Hosts[i]
			ch := h.Chunks[hash]
			if ch == nil {
				ch = []int{}
			}
			m := wmsg{T: 1, ID: int(binary.BigEndian.Uint16(b[1:3])), Addr: []int{10, 77, 0, h.IP}, Port: h.Port, Chunks: ch}
			for k := 0; k < h.Disc; k++ {
				out.WriteToUDP(m.encode(), &net.UDPAddr{IP: from.IP, Port: 61696})
			}
		}
	}
}

var itemRE = regexp.MustCompile(`(?s)\A(.*?)\n\tPath: (.*?)\n\tSize \(bytes\): (-?\d+)\n\tSha1 Hash: ([0-9a-f]*)\n\tChunk Count: (-?\d+)\n\tChunks Downloaded: (-?\d+)\n\tChunk Size: (-?\d+)\n\tIntegrity: (-?\d+)%\n`)
var peerRE = regexp.MustCompile(`\AIP: (\d+\.\d+\.\d+\.\d+):(\d+)\n((?:  \d+:\d+\n)*)`)
var cleanRE = regexp.MustCompile(`(?s)\A([^\n]*)\n((?:  +- .*?\n|    .*?\n)+)`)

func bigS(s string) []int64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return []int64{-1}
	}
	return bigU(n)
}

// parse turns what was printed into a result, if it is one
func (w *cliWorld) parse(cmd, out string, e M) {
	e["out"] = "text"
	if out == "" {
		e["out"] = ""
		return
	}
	if out == "Flu transfer initiated\n" {
		e["out"] = "started"
		return
	}
	rest := out
	items := []M{}
	for cmd == "list" || cmd == "share" {
		x := itemRE.FindStringSubmatch(rest)
		if x == nil {
			break
		}
		pc, _ := strconv.Atoi(x[8])
		items = append(items, M{"name": w.show(x[1]), "path": w.show(x[2]), "size": bigS(x[3]), "hash": x[4], "count": bigS(x[5]), "have": bigS(x[6]), "csize": bigS(x[7]), "percent": pc})
		rest = rest[len(x[0]):]
	}
	if len(items) > 0 && rest == "" {
		e["out"], e["items"] = "items", items
		return
	}
	peers := []M{}
	rest = out
	for cmd == "chims" {
		x := peerRE.FindStringSubmatch(rest)
		if x == nil {
			break
		}
		port, _ := strconv.Atoi(x[2])
		chunks := []int{}
		for _, l := range strings.Fields(x[3]) {
			var a, b int
			fmt.Sscanf(l, "%d:%d", &a, &b)
			chunks = append(chunks, a, b)
		}
		peers = append(peers, M{"ip": x[1], "port": port, "chunks": chunks})
		rest = rest[len(x[0]):]
	}
	if len(peers) > 0 && rest == "" {
		e["out"], e["peers"] = "peers", peers
		return
	}
	report := []M{}
	rest = out
	for cmd == "clean" {
		x := cleanRE.FindStringSubmatch(rest)
		if x == nil {
			break
		}
		what := "?"
		for k, v := range map[string]string{"missing": "missing", "in progress": "progress", "has changed": "changed", "Hashes match": "fine"} {
			if strings.Contains(strings.SplitN(x[2], "\n", 2)[0], k) {
				what = v
			}
		}
		hs := []string{}
		for _, h := range regexp.MustCompile(`[0-9a-f]{40}`).FindAllString(x[2], -1) {
			hs = append(hs, h)
		}
		report = append(report, M{"path": w.show(x[1]), "what": what, "hashes": hs})
		rest = rest[len(x[0]):]
	}
	if len(report) > 0 && rest == "" {
		e["out"], e["report"] = "report", report
	}
}

var panicRE = regexp.MustCompile(`(?m)^(panic: |fatal error: |\[signal |goroutine \d+ \[)`)

// command runs one command line
func (w *cliWorld) command(s *cliStep) M {
	argv := []string{}
	args := []M{}
	dir := ""
	if s.Cmd != "\x00" {
		argv = append(argv, s.Cmd)
	}
	for _, a := range s.Args {
		v, is := a.S, a.Is
		if a.Kind == "path" {
			v = w.abs([]byte(a.S))
			is = w.show(v)
			if a.From != "" {
				dir = w.abs([]byte(a.From))
				must(os.MkdirAll(dir, 0755))
				var err error
				v, err = filepath.Rel(dir, v)
				must(err)
			}
		}
		argv = append(argv, v)
		args = append(args, M{"kind": a.Kind, "is": is})
	}
	e := M{"op": "cli", "cmd": strings.Trim(s.Cmd, "\x00"), "args": args}
	var r agentRes
	t0 := time.Now()
	for try := 0; try < 3; try++ {
		r = w.m.cliIn(dir, w.Bin, 40, argv...)
		delete(e, "items")
		delete(e, "peers")
		w.parse(s.Cmd, r.Out, e)
		if s.Sure == 0 || !w.up || r.RC < 0 {
			break
		}
		ps, _ := e["peers"].([]M)
		if s.Cmd == "chims" && len(ps) >= s.Sure || s.Cmd != "chims" && e["out"] != "text" {
			break
		}
	}
	e["rc"] = r.RC
	if r.RC < 0 {
		atomic.AddInt32(&w.late, 1)
	}
	e["ms"] = int(time.Since(t0) / time.Millisecond)
	if e["out"] == "" && r.Err != "" {
		e["out"] = "text"
	}
	e["text"] = cutString(r.Out+r.Err, 600)
	e["panic"] = panicRE.MatchString(r.Err)
	named := []string{}
	if _, err := os.Stat(w.m.CatDir()); err == nil { // (opening it would create it)
		l := []catalogue.IndexRecordExport{}
		if cat, err := w.disk(); err == nil {
			l, _ = cat.ListFiles()
		}
		for _, x := range l {
			if strings.Contains(r.Out, x.FilePath) || strings.Contains(r.Out, strings.Trim(strconv.Quote(x.FilePath), `"`)) {
				named = append(named, w.show(x.FilePath))
			}
		}
	}
	e["named"] = named
	e["path"] = ""
	if s.Cmd == "get" && len(s.Args) > 0 {
		if cat, err := w.disk(); err == nil {
			l, _ := cat.ListFiles()
			for _, x := range l {
				if x.Sha1Hash.String() == s.Args[0].Is {
					e["path"] = w.show(x.FilePath)
				}
			}
		}
	}
	return e
}

func cutString(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.ToValidUTF8(s, "?")
}

func (w *cliWorld) disk() (*catalogue.Cat, error) {
	cat, err := catalogue.NewCat(w.catDir(), w.dlDir())
	if err == nil {
		err = cat.Init()
	}
	return cat, err
}

// after adds what can be seen once a step is done
func (w *cliWorld) after(e M) M {
	e["alive"] = w.m.running()
	e["fs"] = w.files()
	e["disk"] = []M{}
	if _, err := os.Stat(w.m.CatDir()); err == nil { // (opening it would create it)
		e["disk"], _ = w.reopened(w.catDir())
	}
	return e
}

func (w *cliWorld) step(s *cliStep) {
	t0 := time.Now()
	e := M{"op": s.Op, "alive": true}
	switch s.Op {
	case "cli":
		e = w.command(s)
	case "burst":
		es := make([]M, len(s.Burst))
		parallel(len(s.Burst), len(s.Burst), func(i int) { es[i] = w.command(&s.Burst[i]) })
		for _, x := range es {
			w.events = append(w.events, x)
		}
	case "abort": // the user does not wait for the result
		argv := []string{s.Cmd}
		for _, a := range s.Args {
			argv = append(argv, a.S)
		}
		w.m.cli(w.Bin, s.Timeout, argv...)
	case "write":
		p := w.abs([]byte(s.Path))
		os.RemoveAll(p)
		must(os.WriteFile(p, w.h.bytesOf(s.C), 0644))
		e["path"] = w.show(p)
	case "remove":
		p := w.abs([]byte(s.Path))
		os.RemoveAll(p)
		e["path"] = w.show(p)
	case "mkdir":
		p := w.abs([]byte(s.Path))
		os.RemoveAll(p)
		must(os.MkdirAll(p, 0755))
		e["path"] = w.show(p)
	case "stop":
		w.stop(s)
	case "start":
		e["served"] = w.m.tryStart(w.Bin)
		w.up = true
	case "second": // another daemon is started, while commands are given
		var wg sync.WaitGroup
		rcs := []int{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < s.C; i++ {
				rcs = append(rcs, w.m.cli(w.Bin, 20, "-d").RC)
			}
		}()
		for i := range s.Burst {
			w.step(&s.Burst[i])
		}
		wg.Wait()
		e["rcs"] = rcs
	case "cut": // the daemon is ended while commands are carried out
		es := make([]M, len(s.Burst))
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(s.Timeout * float64(time.Second)))
			w.stop(s)
		}()
		parallel(len(s.Burst), len(s.Burst), func(i int) { es[i] = w.command(&s.Burst[i]) })
		wg.Wait()
		e["cmds"] = es
	case "flash": // it is started, and ended before it is ready, perhaps
		w.m.launch(w.Bin)
		time.Sleep(time.Duration(s.Timeout * float64(time.Second)))
		w.stop(s)
	case "fresh":
		must(os.RemoveAll(filepath.Dir(w.m.CatDir())))
	case "offline":
		w.offline = true
		w.m.ip("link", "set", "eth0", "down")
		w.m.ip("addr", "flush", "dev", "eth0")
	case "online":
		w.offline = false
		w.m.ip("link", "set", "eth0", "up")
		w.m.ip("addr", "add", w.m.IP()+"/24", "broadcast", "10.77.0.255", "dev", "eth0")
		w.m.ip("route", "replace", "255.255.255.255", "dev", "eth0")
		time.Sleep(50 * time.Millisecond)
	}
	t1 := time.Now()
	w.after(e)
	e["took"] = []int{int(t1.Sub(t0) / time.Millisecond), int(time.Since(t1) / time.Millisecond)}
	w.events = append(w.events, e)
}

// stop ends the daemon: by signal Sure (or kill), and leaves something where its socket was
func (w *cliWorld) stop(s *cliStep) {
	if s.Sure > 0 {
		w.m.signalDaemon(syscall.Signal(s.Sure))
	} else {
		w.m.killDaemon()
	}
	w.up = false
	if s.C > 0 {
		os.Remove(w.m.Sock())
	}
	if s.C == 2 {
		must(os.Mkdir(w.m.Sock(), 0755))
	} else if s.C == 3 {
		must(os.WriteFile(w.m.Sock(), []byte("x"), 0644))
	}
}

// cliCmd runs histories one after the other on one machine
func cliCmd(args []string) {
	var j cliJob
	readJSON(args[0], &j)
	m := &machine{Dir: filepath.Join(j.Work, "node1"), K: 1}
	traces := [][]M{}
	crash := ""
	late := 0
	j.resolve()
	var once sync.Once
	for i := range j.Histories {
		hi := &j.Histories[i]
		h := &history{Seed: j.Seed, Contents: j.Contents}
		w := &cliWorld{cliJob: &j, h: h, m: m}
		for _, d := range []string{m.CatDir(), m.DlDir(), m.Home() + "/s"} {
			must(os.RemoveAll(d))
		}
		must(os.MkdirAll(m.DlDir(), 0755))
		must(os.MkdirAll(m.Home()+"/s", 0755))
		w.catWorld = newWorld(m.Home(), h)
		w.catWorld.m = m
		once.Do(func() {
			for k := range j.Hosts {
				go w.host(&j.Hosts[k])
			}
			go w.discoveries()
		})
		w.events = append(w.events, M{"op": "self", "ip": m.IP(), "port": 61696, "contents": w.contents()})
		for k := range j.Hosts {
			w.events = append(w.events, j.Hosts[k].event())
		}
		for k, e := range hi.Entries {
			w.prepare(k, &e)
		}
		w.step(&cliStep{Op: "start"})
		for k := range hi.Steps {
			w.step(&hi.Steps[k])
			if w.late > 0 {
				break // that is seen already, and every further command may last as long
			}
			if w.up && !m.running() {
				b, _ := os.ReadFile(m.Log())
				crash = string(b)
				break
			}
		}
		if w.up && m.running() {
			m.killDaemon()
		}
		if w.offline {
			w.step(&cliStep{Op: "online"})
			w.events = w.events[:len(w.events)-1]
		}
		os.RemoveAll(m.Sock())
		os.Remove(m.Log())
		traces = append(traces, w.events)
		late += int(w.late)
		if crash != "" || late > 2 {
			break
		}
	}
	writeJSON(args[1], M{"traces": traces, "crash": crash})
}

// resolve replaces #k by the hash of content k
func (j *cliJob) resolve() {
	h := &history{Seed: j.Seed, Contents: j.Contents}
	r := func(s *string) {
		if strings.HasPrefix(*s, "#") {
			k, _ := strconv.Atoi((*s)[1:])
			*s = h.hashOf(k).String()
		}
	}
	for i := range j.Hosts {
		for k := range j.Hosts[i].Files {
			r(&j.Hosts[i].Files[k].Hash)
		}
		ch := map[string][]int{}
		for k, v := range j.Hosts[i].Chunks {
			r(&k)
			ch[k] = v
		}
		j.Hosts[i].Chunks = ch
	}
	args := func(s *cliStep) {
		for k := range s.Args {
			r(&s.Args[k].S)
			r(&s.Args[k].Is)
		}
	}
	for i := range j.Histories {
		for k := range j.Histories[i].Steps {
			s := &j.Histories[i].Steps[k]
			args(s)
			for b := range s.Burst {
				args(&s.Burst[b])
			}
		}
	}
}

func (w *cliWorld) contents() []M {
	res := []M{}
	for c := range w.Contents {
		res = append(res, M{"hash": w.h.hashOf(c).String(), "size": big(w.Contents[c].Size)})
	}
	return res
}

func (h *cliHost) event() M {
	fs := []M{}
	for _, f := range h.Files {
		fs = append(fs, M{"hash": f.Hash, "size": bigU(f.Size), "csize": bigU(uint64(f.Csize)), "count": bigU(uint64(f.Count)), "have": bigU(uint64(f.Have)), "name": f.Name})
	}
	cs := []M{}
	for k, v := range h.Chunks {
		cs = append(cs, M{"hash": k, "chunks": v})
	}
	return M{"op": "host", "ip": "10.77.0." + itoa(h.IP), "port": h.Port, "list": h.List, "disc": h.Disc, "files": fs, "chunks": cs}
}

// prepare makes an entry of the catalogue before the daemon is started
func (w *cliWorld) prepare(k int, e *cliEntry) {
	cat, err := w.disk()
	must(err)
	c := w.Contents[e.C]
	hash := w.h.hashOf(e.C)
	if e.Held == nil {
		p := w.abs([]byte("s/" + e.Name))
		must(os.WriteFile(p, w.h.bytesOf(e.C), 0644))
		_, err := cat.ShareFile(p)
		works(err)
	} else {
		_, err := cat.RegisterDownload(uint64(c.Size), uint32(c.chunks()), uint32(c.CSize), hash, e.Name)
		works(err)
		for _, k := range e.Held {
			works(cat.SaveChunk(hash, uint16(k), w.h.chunkOf(e.C, int64(k))))
		}
	}
	l, _ := w.reopened(w.catDir())
	w.events = append(w.events, M{"op": "setup", "disk": l, "fs": w.files()})
}
