//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc run PROP TIER VERIFDIR | replay PROP FILE | list")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	case "run":
		p := props[os.Args[2]]
		if p == nil {
			usage()
		}
		os.Exit(parentMain(p, os.Args[3], os.Args[4]))
	case "worker":
		p := props[os.Args[2]]
		shard, _ := strconv.Atoi(os.Args[4])
		shards, _ := strconv.Atoi(os.Args[5])
		dl, _ := strconv.ParseInt(os.Args[7], 10, 64)
		known := map[string]bool{}
		for _, k := range loadKnown(filepath.Join(os.Args[8], "known_findings.jsonl")) {
			known[k.Property+"|"+k.Model+"|"+k.Key] = true
		}
		workerMain(p, os.Args[3] == "thorough", shard, shards, os.Args[6], time.Unix(dl, 0), known)
	case "replay1":
		// replay1 PROP TIER MODEL TRACE DIR OUT: one execution in a fresh process
		p := props[os.Args[2]]
		v := replayLeaf(p, os.Args[3] == "thorough", os.Args[4], parseInts(os.Args[5]), os.Args[6])
		r := map[string]any{"Violated": v != nil}
		if v != nil {
			r["Key"], r["Msg"] = v.Key, v.Msg
		}
		b, _ := json.Marshal(r)
		must(os.WriteFile(os.Args[7], b, 0644))
	case "replay":
		b, err := os.ReadFile(os.Args[3])
		must(err)
		var m struct {
			Tier, Model string
			Choices     []int
			Input       string
		}
		must(json.Unmarshal(b, &m))
		dir, _ := os.MkdirTemp("", "mcreplay-")
		v := replayLeaf(props[os.Args[2]], m.Tier == "thorough", m.Model, m.Choices, dir)
		os.RemoveAll(dir)
		if v == nil {
			fmt.Println("replay: no violation")
			return
		}
		fmt.Printf("replay: VIOLATION %s model=%s key=%s\n  input: %s\n  %s\n", v.Prop, v.Model, v.Key, v.Desc, v.Msg)
		os.Exit(1)
	default:
		usage()
	}
}

func replayLeaf(p *Prop, thorough bool, model string, trace []int, dir string) *violation {
	debug.SetTraceback("single")
	scratch, err := os.MkdirTemp(dir, "replay-")
	must(err)
	must(os.Chdir(scratch))
	if os.Getenv("MC_VERBOSE") == "" {
		log.SetOutput(lastMsgDiscard{})
	}
	for _, m := range p.Models {
		if m.Name == model {
			_, v, _ := runOne(nil, p, m, trace, thorough, scratch)
			return v
		}
	}
	return &violation{Prop: p.ID, Model: model, Key: "nomodel", Msg: "no such model"}
}

type lastMsgDiscard struct{}

func (lastMsgDiscard) Write(b []byte) (int, error) { return len(b), nil }
