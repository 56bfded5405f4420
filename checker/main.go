package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func dump(P *Prog, outs []*Outcome) {
	var tr func(ind string, evs []*Event)
	tr = func(ind string, evs []*Event) {
		for _, ev := range evs {
			if ev.Pure && os.Getenv("PURE") == "" {
				continue
			}
			fmt.Printf("%s%s %s", ind, ev.Kind, ev.Name)
			if ev.Sub == nil {
				fmt.Printf(" %v -> %v", ev.Args, ev.Res)
			}
			fmt.Println()
			if ev.Sub != nil {
				for i, t := range ev.Sub.Traces {
					fmt.Printf("%s  trace %d: ret %v back %v\n%s    facts %v\n", ind, i, t.Ret, t.Back, ind, strings.Join(t.St.facts.list()[len(ev.Sub.At.facts.ord):], " & "))
					tr(ind+"    ", t.Ev)
				}
			}
		}
	}
	for i, o := range outs {
		fmt.Printf("--- outcome %d: ret %v panic %v\n    facts %s\n", i, o.Ret, o.Panic, strings.Join(o.St.facts.list(), " & "))
		tr("    ", o.St.ev)
	}
}

// usage: check <property>... | check -dump pkg [type] func
func main() {
	home := os.Getenv("VERIF_HOME")
	if home == "" {
		home = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) == 2 && os.Args[1] == "-list" {
		for id := range rules {
			fmt.Println(id)
		}
		return
	}
	start := time.Now()
	P, err := load(repo)
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "-dump" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		f := P.fn(args[1], args[2])
		if len(args) > 3 {
			f = P.method(args[1], args[2], args[3])
		}
		e := newEng(P)
		outs := e.Run(f)
		dump(P, outs)
		fmt.Println(len(outs), e.steps)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(args) == 1 && args[0] == "all" {
		args = nil
		for id := range rules {
			args = append(args, id)
		}
		sort.Strings(args)
	}
	code := 0
	for i, id := range args {
		if rules[id] == nil {
			fmt.Println("no such property:", id)
			os.Exit(2)
		}
		if i > 0 {
			start = time.Now()
		}
		if runProperty(P, err, id, filepath.Clean(home), tier, seed, start) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}
