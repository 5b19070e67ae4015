package main

import (
	"crypto/sha1"
	"fmt"
	"net/rpc"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
)

func init() { commands["swarm"] = swarmCmd }

// swFile is a file that some nodes have, or parts of it
type swFile struct {
	Size, Csize int64   // Csize 0: it is shared, by those that have all of it
	Hold        [][]int // per node: chunks held at the start (nil: no entry)
	data        []byte
	hash        common.Sha1Hash
}

// swStep is something that happens to a node
type swStep struct {
	At   int    // ms
	Op   string // get, kill, start, cut (its cable, for N ms), share
	Node int
	F    int
	N    int
}

type swJob struct {
	Bin   string
	Work  string
	Seed  int64
	Nodes int
	Files []swFile
	Steps []swStep
	Max   int
}

type swarm struct {
	*swJob
	ms    []*machine
	cats  []*catalogue.Cat
	rec   *recorder
	seen  []map[int]map[int]string // node, file, chunk: digest
	up    []bool
	lock  sync.Mutex
	begun time.Time
	wants map[[2]int]bool // node, file: requested since the node was started
}

func (f *swFile) csize() int64 {
	if f.Csize == 0 {
		return 1 << 22
	}
	return f.Csize
}
func (f *swFile) count() int { return int((f.Size + f.csize() - 1) / f.csize()) }
func (f *swFile) chunk(k int) []byte {
	lo, hi := int64(k)*f.csize(), int64(k+1)*f.csize()
	if hi > f.Size {
		hi = f.Size
	}
	return f.data[lo:hi]
}

func (s *swarm) add(e M) {
	if !s.begun.IsZero() {
		e["at"] = int(time.Since(s.begun) / time.Millisecond)
	}
	s.rec.events = append(s.rec.events, recorded{0, len(s.rec.events), e})
}

// look records what has changed in the catalogue of a node
func (s *swarm) look(n int, all bool) (complete map[int]bool) {
	s.rec.Lock()
	defer s.rec.Unlock()
	complete = map[int]bool{}
	cat, err := catalogue.NewCat(s.ms[n].CatDir(), s.ms[n].DlDir())
	if err == nil {
		err = cat.Init()
	}
	if err != nil {
		s.add(M{"op": "broken", "n": n, "err": err.Error()})
		return
	}
	for f := range s.Files {
		fl := &s.Files[f]
		now := map[int]string{}
		added, changed, gone := [][]interface{}{}, []int{}, []int{}
		r, err := cat.Contains(&fl.hash)
		if err == nil {
			rs := r.Progress.Ranges()
			for i := 0; i+1 < len(rs); i += 2 {
				for k := int(rs[i]); k <= int(rs[i+1]); k++ {
					old, known := s.seen[n][f][k]
					if known && !all {
						now[k] = old
						continue
					}
					d := ""
					if k < fl.count() {
						d = sum(readAt(r.FilePath, int64(k)*fl.csize(), int64(len(fl.chunk(k)))))
					}
					now[k] = d
					if !known {
						added = append(added, []interface{}{k, k < fl.count() && d == sum(fl.chunk(k))})
					} else if old != d {
						changed = append(changed, k)
					}
				}
			}
			complete[f] = len(now) == fl.count()
			if all && complete[f] {
				b, _ := os.ReadFile(r.FilePath)
				s.add(M{"op": "whole", "n": n, "f": f, "same": sha1.Sum(b) == fl.hash.Data})
			}
		}
		for k := range s.seen[n][f] {
			if _, ok := now[k]; !ok {
				gone = append(gone, k)
			}
		}
		s.seen[n][f] = now
		if len(added)+len(changed)+len(gone) > 0 {
			s.add(M{"op": "obs", "n": n, "f": f, "added": added, "changed": changed, "gone": gone})
		}
	}
	return
}

func (s *swarm) get(n, f int) {
	s.rec.Lock()
	if !s.up[n] {
		s.rec.Unlock()
		return
	}
	s.add(M{"op": "get", "n": n, "f": f})
	s.wants[[2]int{n, f}] = true
	s.rec.Unlock()
	for try := 0; try < 12; try++ {
		c, err := rpc.Dial("unix", s.ms[n].Sock())
		if err == nil {
			err = c.Call("Methods.Get", &cli.GetRequest{Sha1Hash: &s.Files[f].hash}, &cli.GetResponse{})
			c.Close()
		}
		s.rec.Lock()
		up := s.up[n]
		s.rec.Unlock()
		if err == nil || !up { // nobody answered, perhaps because a cable was cut: once more
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func swarmCmd(args []string) {
	var j swJob
	readJSON(args[0], &j)
	s := &swarm{swJob: &j, rec: newRecorder(), wants: map[[2]int]bool{}}
	for i := range j.Files {
		f := &j.Files[i]
		f.data = pattern(fmt.Sprint("swarm", j.Seed, i), int(f.Size))
		f.hash.Data = sha1.Sum(f.data)
		s.add(M{"op": "file", "f": i, "count": f.count()})
	}
	for n := 0; n < j.Nodes; n++ {
		m := &machine{Dir: filepath.Join(j.Work, "node"+itoa(n+1)), K: n + 1}
		s.ms = append(s.ms, m)
		s.seen = append(s.seen, map[int]map[int]string{})
		s.up = append(s.up, true)
		must(os.MkdirAll(m.DlDir(), 0755))
		cat, err := catalogue.NewCat(m.CatDir(), m.DlDir())
		must(err)
		works(cat.Init())
		s.add(M{"op": "node", "n": n})
		for i := range j.Files {
			f := &j.Files[i]
			if f.Hold[n] == nil {
				continue
			}
			s.seen[n][i] = map[int]string{}
			if f.Csize == 0 {
				p := filepath.Join(m.Home(), "f"+itoa(i))
				must(os.WriteFile(p, f.data, 0644))
				_, err := cat.ShareFile(p)
				works(err)
				f.Hold[n] = nil
				for k := 0; k < f.count(); k++ {
					f.Hold[n] = append(f.Hold[n], k)
				}
			} else {
				_, err := cat.RegisterDownload(uint64(f.Size), uint32(f.count()), uint32(f.Csize), &f.hash, "f"+itoa(i))
				works(err)
				for _, k := range f.Hold[n] {
					works(cat.SaveChunk(&f.hash, uint16(k), f.chunk(k)))
				}
			}
			for _, k := range f.Hold[n] {
				s.seen[n][i][k] = sum(f.chunk(k))
			}
			s.add(M{"op": "hold", "n": n, "f": i, "chunks": f.Hold[n]})
		}
	}
	parallel(j.Nodes, j.Nodes, func(n int) { s.ms[n].startDaemon(j.Bin) })
	s.begun = time.Now()
	var wg sync.WaitGroup
	for i := range j.Steps {
		u := j.Steps[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(s.begun.Add(time.Duration(u.At) * time.Millisecond)))
			switch u.Op {
			case "get":
				s.get(u.Node, u.F)
			case "kill":
				s.rec.Lock()
				if s.ms[u.Node].running() {
					s.up[u.Node] = false
					s.ms[u.Node].killDaemon()
				}
				for f := range s.Files {
					delete(s.wants, [2]int{u.Node, f})
				}
				s.rec.Unlock()
				s.look(u.Node, false)
				s.rec.Lock()
				s.add(M{"op": "kill", "n": u.Node})
				s.rec.Unlock()
			case "start":
				s.ms[u.Node].startDaemon(s.Bin)
				s.rec.Lock()
				s.up[u.Node] = true
				s.add(M{"op": "start", "n": u.Node})
				s.rec.Unlock()
			case "cut":
				link := func(st string) {
					o, err := exec.Command("ip", "link", "set", "v"+itoa(u.Node+1), st).CombinedOutput()
					if err != nil {
						must(fmt.Errorf("%v: %s", err, o))
					}
				}
				link("down")
				time.Sleep(time.Duration(u.N) * time.Millisecond)
				link("up")
			}
		}()
	}
	steps := make(chan bool)
	go func() { wg.Wait(); close(steps) }()
	out := M{}
	crashed := func() bool {
		for n, m := range s.ms {
			s.rec.Lock()
			up := s.up[n]
			s.rec.Unlock()
			if up && !m.running() {
				s.rec.Lock()
				still := s.up[n]
				s.rec.Unlock()
				if still {
					log, _ := os.ReadFile(m.Log())
					out["crash"] = string(log)
					return true
				}
			}
		}
		return false
	}
	for time.Since(s.begun) < time.Duration(j.Max)*time.Second && !crashed() {
		time.Sleep(100 * time.Millisecond)
		all := true
		comp := []map[int]bool{}
		for n := range s.ms {
			comp = append(comp, s.look(n, false))
		}
		select {
		case <-steps:
		default:
			continue
		}
		s.rec.Lock()
		for w := range s.wants {
			all = all && comp[w[0]][w[1]]
		}
		s.rec.Unlock()
		if all {
			break
		}
	}
	time.Sleep(300 * time.Millisecond)
	crashed()
	for n := range s.ms {
		s.look(n, true)
	}
	s.rec.Lock()
	for n, m := range s.ms {
		if s.up[n] && m.running() {
			s.add(M{"op": "end", "n": n, "alive": rpcAlive(m.Sock(), -1)})
		}
	}
	s.rec.Unlock()
	for _, m := range s.ms {
		m.killDaemon()
	}
	out["traces"] = [][]M{s.rec.trace()}
	writeJSON(args[1], out)
}
