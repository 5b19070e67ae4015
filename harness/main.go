// Command vdrv drives the code of flu-network/client for the checks in /verif: it executes
// behaviours of the TLA+ specifications on the real code, or records executions of the real code
// for TLC to judge. It takes no decisions of its own.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

type M = map[string]interface{}

var commands = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 {
		die("no command")
	}
	cmd, ok := commands[os.Args[1]]
	if !ok {
		die("unknown command %s", os.Args[1])
	}
	fmt.Fprintln(os.Stderr, "DRIVER-STARTED")
	cmd(os.Args[2:])
}

// die reports a failure of the harness itself (as opposed to the code under test).
func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS: %v\n%s\n", err, debug.Stack())
		os.Exit(3)
	}
}

func readJSON(path string, v interface{}) {
	data, err := os.ReadFile(path)
	must(err)
	must(json.Unmarshal(data, v))
}

func writeJSON(path string, v interface{}) {
	data, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, data, 0644))
}

// guarded runs f, which calls the code under test, and returns what it panicked with, if it did.
func guarded(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return ""
}

// works exits with a verdict about the code under test: what it was asked to do must succeed
func works(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "CODE: %v\n%s\n", err, debug.Stack())
		os.Exit(4)
	}
}
