// The harnesses that state the properties of shabbyrobe/xmlwriter. Every function named
// <property>_<something> is an entry point of the symbolic engine (../engine). The same program,
// compiled natively, replays recorded input vectors against the real code (main below).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"

	"verif/harness/sym"
)

var registry = map[string]func(){}

func reg(name string, f func()) bool {
	registry[name] = f
	return true
}

type nativeIn struct {
	Harness string
	Inputs  []string
	Tier    int
}

type nativeOut struct {
	Status string
	Msg    string
	Known  string
	Obs    []string
	Covers []string
	Used   int
}

func runOne(in nativeIn) (out nativeOut) {
	st := &sym.State{Covers: map[string]bool{}, Level: in.Tier}
	for _, s := range in.Inputs {
		v, _ := strconv.ParseUint(s, 10, 64)
		st.Inputs = append(st.Inputs, v)
	}
	sym.Cur = st
	f := registry[in.Harness]
	if f == nil {
		return nativeOut{Status: "missing"}
	}
	defer func() {
		out.Obs = st.Obs
		out.Used = st.Pos
		for c := range st.Covers {
			out.Covers = append(out.Covers, c)
		}
		sort.Strings(out.Covers)
		if r := recover(); r != nil {
			switch r := r.(type) {
			case sym.Failure:
				out.Status, out.Msg, out.Known = "fail", r.Msg, r.Known
			case sym.Skip:
				out.Status = "skip"
			default:
				out.Status, out.Msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	f()
	out.Status = "ok"
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	enc := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		var in nativeIn
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		enc.Encode(runOne(in))
	}
}
