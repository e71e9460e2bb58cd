package main

import (
	"flag"
	"fmt"
	"strings"
	"time"
)

func main() {
	mode := flag.String("mode", "", "what to run")
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "seed")
	kinds := flag.String("kinds", "", "kinds of object")
	prof := flag.String("prof", "mix", "profiles")
	traces := flag.Int("traces", 100, "number of histories")
	steps := flag.Int("steps", 60, "calls per history")
	script := flag.String("script", "", "behaviours to replay")
	sparse := flag.Bool("sparse", false, "spread scripted trees over the real width")
	clones := flag.Bool("clones", false, "clone scripted trees now and then")
	budget := flag.Int("budget", 30, "seconds for concurrent scenarios")
	random := flag.Int("random", 10, "random schedules per scenario")
	sites := flag.String("sites", "", "record accesses to memory; names of the places")
	flag.IntVar(&points, "points", 400, "preemption points per scenario and order")
	flag.BoolVar(&flushLines, "flush", false, "write every line at once")
	flag.Parse()
	if *sites != "" {
		accessMode = true
		if cooperative {
			loadSites(*sites)
		}
	}
	rec = newRecorder(*out)
	provOn = !strings.HasPrefix(*mode, "conc") && !strings.HasPrefix(*mode, "win")
	switch *mode {
	case "tables":
		genTables(*kinds, *prof, *traces, *steps, *seed)
	case "trees":
		genTrees(*kinds, *prof, *traces, *steps, *seed)
	case "scaletables":
		genScaleTables(*kinds, *prof, *traces, *seed)
	case "scaletrees":
		genScaleTrees(*kinds, *prof, *traces, *steps, *seed)
	case "scalemulti":
		genScaleMulti(*kinds, *traces, *steps, *seed)
	case "ids":
		genIds(*kinds, *prof, *traces, *seed)
	case "idsets":
		genIdSets(*kinds, *prof, *traces, *steps, *seed)
	case "setscript":
		scriptedSets(*script, *kinds, *seed)
	case "multi":
		genMulti(*kinds, *prof, *traces, *steps, *seed)
	case "multiscript":
		scriptedMulti(*script, *kinds, *seed, *clones)
	case "treescript":
		scriptedTrees(*script, *kinds, *seed, *sparse, *clones)
	case "conctables":
		concTables(*kinds, *prof, *traces, *random, *seed, time.Duration(*budget)*time.Second)
	case "conctrees":
		concTrees(*kinds, *prof, *traces, *random, *seed, time.Duration(*budget)*time.Second)
	case "wintables":
		concTabWindows(*script, *kinds, *random, *seed, time.Duration(*budget)*time.Second)
	case "wintrees":
		concTreeWindows(*script, *kinds, *random, *seed, time.Duration(*budget)*time.Second)
	case "tabscript":
		scripted(*script, *kinds, *seed)
	default:
		fatal(fmt.Errorf("unknown mode %q", *mode))
	}
	rec.close()
	fmt.Printf("DONE lines=%d\n", rec.lines)
}
