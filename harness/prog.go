package main

import (
	"bufio"
	"encoding/json"
	"os"
)

// program is a sequence of operations found by exploring a model.
type program struct {
	N   int
	X   int
	Ops []struct {
		Op string
		A  []int
	}
}

// eachProgram calls f for every program of the file.
func eachProgram(f func(program)) {
	in, err := os.Open(cfg.prog)
	must(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var p program
		must(json.Unmarshal(sc.Bytes(), &p))
		f(p)
	}
	must(sc.Err())
}
