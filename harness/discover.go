package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
)

func init() { commands["discover"] = discoverCmd }

// recorder collects the events of one history
type recorder struct {
	sync.Mutex
	t0     time.Time
	events []recorded
}

type recorded struct {
	at  time.Duration
	ord int
	ev  M
}

func newRecorder() *recorder { return &recorder{t0: time.Now()} }

// add records an event that happens now
func (r *recorder) add(ev M) {
	r.Lock()
	defer r.Unlock()
	at := time.Since(r.t0)
	ev["at"] = int(at / time.Millisecond)
	r.events = append(r.events, recorded{at, len(r.events), ev})
}

func (r *recorder) trace() []M {
	r.Lock()
	defer r.Unlock()
	sort.SliceStable(r.events, func(i, j int) bool { return r.events[i].at < r.events[j].at })
	out := []M{}
	for _, e := range r.events {
		out = append(out, e.ev)
	}
	return out
}

type discoverJob struct {
	Bin   string
	Work  string
	Seed  int64
	Nodes int // histories, each with a node of its own
	Count int // concurrent discoveries
	Wrap  bool
	Crowd int // so many at once
}

func discoverCmd(args []string) {
	var j discoverJob
	readJSON(args[0], &j)
	traces := make([][]M, j.Nodes)
	out := M{}
	parallel(j.Nodes, 16, func(i int) {
		d := &discoveries{job: &j, rng: rand.New(rand.NewSource(j.Seed + int64(i))), rec: newRecorder(), open: map[[20]byte]*disco{}}
		d.run(i)
		traces[i] = d.rec.trace()
		if d.log != "" {
			out["crash"] = d.log
		}
	})
	out["traces"] = traces
	writeJSON(args[1], out)
}

type disco struct {
	id   int // number of the discovery
	rid  int // of its request, once seen
	seen time.Time
	hash [20]byte
}

type discoveries struct {
	job   *discoverJob
	rng   *rand.Rand
	rlock sync.Mutex
	rec   *recorder
	lock  sync.Mutex
	open  map[[20]byte]*disco
	n     int

	port  int
	node  *fnode
	m     *machine
	log   string
	style int // how peers respond
	socks []*net.UDPConn
	addr  *net.UDPAddr
	wg    sync.WaitGroup // peers at work
	stop  chan struct{}
	old   []int // ids of earlier requests
}

func (d *discoveries) rand(n int) int {
	d.rlock.Lock()
	defer d.rlock.Unlock()
	return d.rng.Intn(n)
}

func (d *discoveries) run(i int) {
	d.stop = make(chan struct{})
	if d.job.Bin != "" {
		d.m = &machine{Dir: filepath.Join(d.job.Work, "node1"), K: 1}
		d.port = fluPort
		cat, err := catalogue.NewCat(d.m.CatDir(), d.m.DlDir())
		must(err)
		works(cat.Init())
		d.m.startDaemon(d.job.Bin)
	} else {
		d.port = freePort()
		d.node = startNode(filepath.Join(d.job.Work, "n"+itoa(i)), d.port)
	}
	d.addr = &net.UDPAddr{IP: net.ParseIP(nodeIP), Port: d.port}
	for k := 2; k <= 5; k++ {
		c := listenOn(fmt.Sprintf("10.77.0.%d", k), d.port)
		d.socks = append(d.socks, c)
	}
	bc := listenOn("255.255.255.255", d.port)
	go d.observe(bc)

	// 1: many discoveries at once, polite and impolite peers
	d.style = 1
	d.many(d.job.Count)
	d.probe()
	if d.job.Crowd > 0 {
		d.style = 3
		d.many(d.job.Crowd)
		d.probe()
	}
	if d.job.Wrap && d.node != nil {
		// make the request ids wrap around
		closed := listenOn("10.77.0.6", 0)
		cp := closed.LocalAddr().(*net.UDPAddr).Port
		closed.Close()
		for k := 0; k < 65536-d.job.Count-d.job.Count/2; k++ {
			d.node.srv.ListFilesOnHost([4]byte{10, 77, 0, 6}, uint16(cp), &common.Sha1Hash{})
		}
	}
	// 2: bursts when the waiting time ends
	d.style = 2
	d.many(d.job.Count)
	d.probe()
	// 3: everything still works, one by one and with no filter
	d.style = 1
	var blank [20]byte
	for k := range blank {
		blank[k] = 255
	}
	d.discover(blank, []int{})
	d.many(4)
	d.probe()
	close(d.stop)
	d.wg.Wait()
	bc.Close()
	for _, s := range d.socks {
		s.Close()
	}
	if d.m != nil {
		if !d.m.running() {
			log, _ := os.ReadFile(d.m.Log())
			d.log = string(log)
		} else {
			d.m.killDaemon()
		}
	} else {
		d.node.stop()
	}
}

func (d *discoveries) many(n int) {
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		var h [20]byte
		d.rlock.Lock()
		d.rng.Read(h[:])
		q := []int{}
		if d.job.Bin == "" {
			for x := d.rng.Intn(3) * d.rng.Intn(5); x > 0; x-- {
				a := d.rng.Intn(60000)
				q = append(q, a, a+d.rng.Intn(5000))
			}
			if d.rng.Intn(20) == 0 {
				for len(q) < 300 {
					q = append(q, len(q), len(q))
				}
			}
		}
		d.rlock.Unlock()
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(d.rand(300)) * time.Millisecond)
			d.discover(h, q)
		}()
	}
	wg.Wait()
}

func (d *discoveries) discover(h [20]byte, q []int) {
	d.lock.Lock()
	d.n++
	x := &disco{id: d.n, rid: -1, hash: h}
	d.open[h] = x
	d.lock.Unlock()
	d.rec.add(M{"op": "call", "d": x.id, "hash": ints(h[:]), "chunks": q})
	done := make(chan []M, 1)
	go func() {
		res := []M{}
		hash := &common.Sha1Hash{Data: h}
		if d.node != nil {
			for _, r := range d.node.srv.DiscoverHosts(hash, u16s(q)) {
				res = append(res, M{"addr": ints(r.Address[:]), "port": int(r.Port), "chunks": intsOf16(r.Chunks)})
			}
		} else {
			c, err := rpc.Dial("unix", d.m.Sock())
			if err != nil {
				return
			}
			defer c.Close()
			var list cli.ChimResponseList
			if c.Call("Methods.Chims", &cli.ChimRequest{Sha1Hash: hash}, &list) != nil {
				return
			}
			for _, r := range list.Responses {
				res = append(res, M{"addr": ints(r.HostIP[:]), "port": int(r.HostPort), "chunks": intsOf16(r.Chunks)})
			}
		}
		done <- res
	}()
	select {
	case res := <-done:
		d.rec.add(M{"op": "ret", "d": x.id, "res": res, "self": []int{10, 77, 0, 1}})
	case <-time.After(15 * time.Second):
		d.rec.add(M{"op": "stuck", "d": x.id})
	}
	d.lock.Lock()
	delete(d.open, h)
	d.old = append(d.old, x.rid)
	d.lock.Unlock()
}

// observe sees the requests on the network and lets the peers answer them
func (d *discoveries) observe(c *net.UDPConn) {
	for {
		b := make([]byte, 2048)
		n, from, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		if n < 24 || b[0] != 0 || !from.IP.Equal(net.ParseIP(nodeIP)) {
			continue
		}
		b = b[:n]
		var h [20]byte
		copy(h[:], b[3:23])
		d.lock.Lock()
		x := d.open[h]
		if x != nil {
			x.rid = int(b[1])<<8 | int(b[2])
			x.seen = time.Now()
		}
		style := d.style
		d.lock.Unlock()
		if x == nil {
			continue
		}
		d.rec.add(M{"op": "req", "d": x.id, "b": ints(b)})
		d.wg.Add(1)
		go func() {
			defer d.wg.Done()
			switch style {
			case 1:
				d.polite(x)
			case 2:
				d.burst(x)
			case 3:
				if d.rand(5) == 0 && d.sleep(d.rand(800)) {
					d.send(d.response(x.rid), 1, true)
				}
			}
		}()
	}
}

func (d *discoveries) response(id int) []byte {
	d.rlock.Lock()
	defer d.rlock.Unlock()
	m := wmsg{T: 1, ID: id, Addr: []int{10, 77, 0, 2 + d.rng.Intn(200)}, Port: d.rng.Intn(65536), Chunks: []int{}}
	for k := d.rng.Intn(4); k > 0; k-- {
		m.Chunks = append(m.Chunks, d.rng.Intn(65536))
	}
	return m.encode()
}

func (d *discoveries) send(b []byte, n int, sure bool) {
	d.rec.add(M{"op": "send", "b": ints(b), "n": n, "sure": sure})
	s := d.socks[d.rand(len(d.socks))]
	for k := 0; k < n; k++ {
		s.WriteToUDP(b, d.addr)
	}
}

func (d *discoveries) sleep(ms int) bool {
	select {
	case <-time.After(time.Duration(ms) * time.Millisecond):
		return true
	case <-d.stop:
		return false
	}
}

// polite peers answer in time. Others answer other requests, repeat themselves, or come late.
func (d *discoveries) polite(x *disco) {
	for p := 1 + d.rand(3); p > 0; p-- {
		d.wg.Add(1)
		go func() {
			defer d.wg.Done()
			if d.sleep(d.rand(800)) {
				b := d.response(x.rid)
				d.send(b, 1, true)
				if d.rand(3) == 0 && d.sleep(d.rand(1500)) {
					d.send(b, 1+d.rand(3), false)
				}
			}
		}()
	}
	if d.rand(8) == 0 { // one that does not stop answering
		d.wg.Add(1)
		go func() {
			defer d.wg.Done()
			for k := 0; k < 20 && d.isOpen(x) && d.sleep(200+d.rand(1000)); k++ {
				d.send(d.response(x.rid), 1, false)
			}
		}()
	}
	for p := d.rand(4); p > 0; p-- {
		d.wg.Add(1)
		go func() {
			defer d.wg.Done()
			id := x.rid
			switch d.rand(4) {
			case 0: // another discovery, perhaps not made yet
				id = (id + 1 + d.rand(60)) % 65536
			case 1:
				id = (id ^ (1 << d.rand(16)))
			case 2:
				id = d.rand(65536)
			}
			switch d.rand(4) {
			case 0: // of another kind
				m := wmsg{T: 3, ID: x.rid, Files: []wfile{}}
				d.sleep(d.rand(1200))
				d.send(m.encode(), 1, false)
			case 1: // late
				if d.sleep(2300 + d.rand(1500)) {
					d.send(d.response(id), 1, false)
				}
			default:
				if d.sleep(d.rand(1900)) {
					d.send(d.response(id), 1, false)
				}
			}
		}()
	}
}

func (d *discoveries) isOpen(x *disco) bool {
	d.lock.Lock()
	defer d.lock.Unlock()
	return d.open[x.hash] == x
}

// burst: the answers come when the waiting time ends, many of them
func (d *discoveries) burst(x *disco) {
	b := d.response(x.rid)
	start := x.seen.Add(time.Duration(1985+d.rand(12)) * time.Millisecond)
	d.sleep(int(time.Until(start) / time.Millisecond))
	const n = 400
	d.rec.add(M{"op": "send", "b": ints(b), "n": n, "sure": false})
	s := d.socks[d.rand(len(d.socks))]
	for k := 0; k < n && time.Since(start) < 40*time.Millisecond; k++ {
		s.WriteToUDP(b, d.addr)
		time.Sleep(50 * time.Microsecond)
	}
}

// probe: the node answers others
func (d *discoveries) probe() {
	s := d.socks[0]
	ok := false
	var blank [20]byte
	for k := range blank {
		blank[k] = 255
	}
	for try := 0; try < 3 && !ok; try++ {
		s.WriteToUDP(discoverReq(77, blank, nil), d.addr)
		s.SetReadDeadline(time.Now().Add(3 * time.Second))
		b := make([]byte, 2048)
		n, _, err := s.ReadFromUDP(b)
		ok = err == nil && n >= 10 && b[0] == 1 && b[2] == 77
	}
	d.rec.add(M{"op": "alive", "ok": ok})
}
