package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

type checkFn func(c *Check)

var checks = map[string]checkFn{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mp4verif ID... | all | list")
		os.Exit(2)
	}
	repoDir := os.Getenv("MP4VERIF_REPO")
	if repoDir == "" {
		repoDir = "/repo"
	}
	verifDir := os.Getenv("MP4VERIF_DIR")
	if verifDir == "" {
		verifDir = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := os.Args[1:]
	if ids[0] == "list" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if p := os.Getenv("MP4VERIF_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	start := time.Now()
	repo, lerr := loadRepo(repoDir)
	if ids[0] == "dumpspec" {
		dumpSpec(repo)
		return
	}
	if ids[0] == "dbg" {
		dbg(repo)
		return
	}
	rc := 0
	for _, id := range ids {
		st := start
		if len(ids) > 1 {
			st = time.Now()
		}
		c := newCheck(id, tier, repo)
		fn := checks[id]
		if lerr != nil {
			c.Bad("load", "-", "the repository cannot be analysed: %v", lerr)
		} else if fn == nil {
			c.Bad("no-such-check", "-", "no check named %s", id)
		} else {
			func() {
				defer func() {
					if p := recover(); p != nil {
						if dbgOn {
							debug.PrintStack()
						}
						c.Bad("analysis-panic", "-", "the analysis itself failed, nothing is decided: %v", p)
					}
				}()
				fn(c)
			}()
		}
		if c.finish(verifDir, st, seed) != 0 {
			rc = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}
