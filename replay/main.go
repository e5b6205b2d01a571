package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

var registry = map[string][]*Target{}

func register(prop string, ts ...*Target) { registry[prop] = append(registry[prop], ts...) }

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 20, "seconds in total")
	out := flag.String("out", "", "file for the failing input")
	list := flag.Bool("list", false, "list targets")
	only := flag.String("only", "", "only this target")
	flag.Parse()
	if *list {
		var ps []string
		for p := range registry {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			for _, t := range registry[p] {
				fmt.Println(p, t.Name)
			}
		}
		return
	}
	if os.Getenv("REPLAY_CHILD") == "" {
		// a panic on another thread and a fatal error end the process
		os.Exit(inChild(*seed, *out))
	}
	ts := registry[*prop]
	if *only != "" {
		var f []*Target
		for _, t := range ts {
			if t.Name == *only {
				f = append(f, t)
			}
		}
		ts = f
	}
	if len(ts) == 0 {
		fmt.Fprintln(os.Stderr, "no targets for", *prop)
		os.Exit(3)
	}
	per := time.Duration(*budget * float64(time.Second) / float64(len(ts)))
	res := map[string]interface{}{}
	for _, t := range ts {
		st := &Stats{}
		f := explore(t, *seed, per, st)
		res[t.Name] = map[string]interface{}{"exhaustive_histories": st.Exhaustive, "random_histories": st.Random, "exhaustive_cut": st.ExhCut, "exhaustive_length": t.Exh, "operand_domain": t.Dom, "random_length": t.Len}
		if f != nil {
			msg := fmt.Sprintf("FAILING INPUT\ntarget: %s\nseed: %d\nhistory (%d operations):\n%sobserved: %v\n", t.Name, *seed, len(f.ops), show(t, f.ops), f.err)
			fmt.Print(msg)
			if *out != "" {
				b, _ := json.Marshal(f.ops)
				os.WriteFile(*out, []byte(msg+"raw: "+string(b)+"\n"), 0o644)
			}
			os.Exit(1)
		}
	}
	b, _ := json.Marshal(res)
	fmt.Println(string(b))
}

func inChild(seed int64, out string) int {
	var eb bytes.Buffer
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "REPLAY_CHILD=1")
	cmd.Stdout = os.Stdout
	cmd.Stderr = &eb
	err := cmd.Run()
	if err == nil {
		return 0
	}
	os.Stderr.Write(eb.Bytes())
	if c := cmd.ProcessState.ExitCode(); c != 2 || !strings.Contains(eb.String(), "panic: ") && !strings.Contains(eb.String(), "fatal error: ") {
		return c
	}
	t := eb.String()
	if len(t) > 3000 {
		t = t[:3000]
	}
	msg := fmt.Sprintf("FAILING INPUT\nseed: %d\nrunning the operations ends the process:\n%s\n", seed, t)
	fmt.Print(msg)
	if out != "" {
		os.WriteFile(out, []byte(msg), 0o644)
	}
	return 1
}
