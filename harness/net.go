package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/flu"
)

func itoa(n int) string { return strconv.Itoa(n) }
func lockThread()       { runtime.LockOSThread() }

const nodeIP = "10.77.0.1"
const fluPort = 61696

// fnode is a node that runs inside the driver: the catalogue and the server of the code under test,
// and the receive loop of its main function.
type fnode struct {
	port   int
	dir    string
	cat    *catalogue.Cat
	srv    *flu.Server
	conn   *net.UDPConn
	closed chan struct{}
}

func newCat(dir string) *catalogue.Cat {
	cat, err := catalogue.NewCat(filepath.Join(dir, "cat"), filepath.Join(dir, "dl"))
	must(err)
	works(cat.Init())
	return cat
}

func startNode(dir string, port int) *fnode {
	must(os.MkdirAll(dir, 0755))
	n := &fnode{port: port, dir: dir, closed: make(chan struct{})}
	n.cat = newCat(dir)
	n.srv = flu.NewServer(port, n.cat)
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(nodeIP), Port: port})
	must(err)
	n.conn = c
	go n.loop()
	return n
}

func (n *fnode) loop() {
	for {
		buffer := make([]byte, 1024)
		k, addr, err := n.conn.ReadFromUDP(buffer)
		if err != nil {
			close(n.closed)
			return
		}
		go n.srv.HandleMessage(buffer[:k], n.conn, addr)
	}
}

func (n *fnode) stop() { n.conn.Close() }

// a freePort that all addresses of the driver can use
var nextPort = 20000
var portLock sync.Mutex

func freePort() int {
	portLock.Lock()
	defer portLock.Unlock()
	nextPort++
	return nextPort
}

// parallel runs f(0..n-1), at most w at a time
func parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, w)
	for i := 0; i < n; i++ {
		sem <- struct{}{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// bigBuffer gives a socket as large a receive buffer as possible
func bigBuffer(c *net.UDPConn) {
	c.SetReadBuffer(8 << 20)
	if r, err := c.SyscallConn(); err == nil {
		r.Control(func(fd uintptr) {
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, 33 /* SO_RCVBUFFORCE */, 8<<20)
		})
	}
}

// listenOn binds a UDP socket; retried because a previous user may still be closing it
func listenOn(ip string, port int) *net.UDPConn {
	for try := 0; ; try++ {
		c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip), Port: port})
		if err == nil {
			bigBuffer(c)
			return c
		}
		if try > 50 {
			must(fmt.Errorf("bind %s:%d: %v", ip, port, err))
		}
		time.Sleep(20 * time.Millisecond)
	}
}
