package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

type config struct {
	out   string
	seed  int64
	n     int
	steps int
	prof  string
	prog  string
	in    string
}

var cfg config

var out *bufio.Writer
var outf *os.File

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	out.Write(b)
	out.WriteByte('\n')
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness MODE flags")
		os.Exit(3)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	fs.StringVar(&cfg.out, "out", "", "output file")
	fs.Int64Var(&cfg.seed, "seed", 1, "seed")
	fs.IntVar(&cfg.n, "n", 10, "number of cases")
	fs.IntVar(&cfg.steps, "steps", 40, "steps per case")
	fs.StringVar(&cfg.prof, "prof", "", "profile")
	fs.StringVar(&cfg.prog, "prog", "", "program file")
	fs.StringVar(&cfg.in, "in", "", "input file")
	fs.Parse(os.Args[2:])
	var err error
	outf, err = os.Create(cfg.out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out = bufio.NewWriterSize(outf, 1<<20)
	f, ok := modes[mode]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(3)
	}
	f()
	out.Flush()
	outf.Close()
}

var modes = map[string]func(){}
