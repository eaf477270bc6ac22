// hgverify decides properties of suapapa/go_hangul from its source, by
// abstract interpretation of its SSA form. See ../DESIGN.md.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: hgverify check <property>|all")
		os.Exit(2)
	}
	if d := os.Getenv("HG_REPO"); d != "" {
		repoDir = d // for trying out the analyser on scratch copies
	}
	exe, _ := os.Executable()
	verif := filepath.Dir(filepath.Dir(exe))
	if d := os.Getenv("HG_VERIF"); d != "" {
		verif = d
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if f := os.Getenv("HG_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		runCheck(os.Args[2], tier, verif)
		return
	}
	if os.Args[2] == "all" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			if r := runCheck(id, tier, verif); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	os.Exit(runCheck(os.Args[2], tier, verif))
}
