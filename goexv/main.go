package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	dbg := flag.String("dbg", "", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("GXPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	p, err := LoadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	a, err := NewAnalyzer(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *prop != "" {
		status := 0
		for _, id := range strings.Split(*prop, ",") {
			r := NewReport(id, *tier)
			r.decl = func(name string) string {
				for fn, fd := range p.Funcs {
					if shortName(fn) == name {
						return p.Pos(fd.Decl.Pos())
					}
				}
				return ""
			}
			r.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
			f := checks[id]
			if f == nil {
				fmt.Println("unknown property", id)
				os.Exit(2)
			}
			r.guard(id, func() { f(a, r) })
			a.keep(r)
			if s := r.finish(*verif, a); s > status {
				status = s
			}
		}
		pprof.StopCPUProfile()
		os.Exit(status)
	}
	if *dbg == "ctx" {
		cs, err := a.CtxSummaries()
		if err != nil {
			fmt.Println(err)
			return
		}
		for _, o := range cs.order {
			fmt.Println(o, cs.init[o])
		}
		for _, n := range ctxOps {
			s := cs.methods[n]
			fmt.Println("==", n, s.nItems, s.und)
			dumpItems(p, s.items, "  ")
			for _, r := range s.res {
				fmt.Println("   res", r)
			}
			for _, l := range s.state {
				fmt.Println("   ", l.path, ":=", l.out)
			}
		}
		return
	}
	if *dbg == "all" {
		for fn := range p.Funcs {
			if p.Funcs[fn].Decl.Body == nil {
				continue
			}
			s := a.Summarise(fn)
			fmt.Println(s.name, s.pos, s.nItems)
			for _, n := range s.und {
				fmt.Println("    UNDECIDED", p.Pos(n.pos), n.msg)
			}
		}
		return
	}
	for fn := range p.Funcs {
		if shortName(fn) == *dbg {
			s := a.Summarise(fn)
			fmt.Println(s.name, s.pos)
			dumpItems(p, s.items, "  ")
			for _, r := range s.res {
				fmt.Println("   res", r)
			}
			fmt.Println(s.und)
		}
	}
}

func dumpItems(p *Program, its []*Item, ind string) {
	for _, it := range its {
		fmt.Printf("%s%s %s #%d @%s pc=%v args=%v\n", ind, it.kind, it.name, it.id, p.Pos(it.pos), it.pc, it.args)
		if it.kind == "loop" {
			fmt.Printf("%s  conds %v\n", ind, it.conds)
			dumpItems(p, it.sub, ind+"    ")
		}
		if it.mu != nil {
			fmt.Printf("%s  mu params %v\n", ind, it.mu.params)
			dumpItems(p, it.mu.items, ind+"    ")
			for i, r := range it.mu.res {
				fmt.Printf("%s  mu res %d = %v\n", ind, i, r)
			}
		}
	}
}

var checks = map[string]func(a *Analyzer, r *Report){
	"P01": (*Analyzer).checkEncoding, "P02": (*Analyzer).checkEncoding, "P03": (*Analyzer).checkEncoding,
	"P04": (*Analyzer).checkEncoding, "P05": (*Analyzer).checkEncoding, "P06": (*Analyzer).checkEncoding,
	"P07": (*Analyzer).checkEncoding, "P08": (*Analyzer).checkEncoding, "P09": (*Analyzer).checkEncoding,
}

func init() {
	checks["P10"] = (*Analyzer).checkBool
	checks["P11"] = (*Analyzer).checkWithVar
	checks["P12"] = (*Analyzer).checkForAll
	checks["P13"] = (*Analyzer).checkNegate
	checks["P14"] = (*Analyzer).checkAppend
	checks["P15"] = (*Analyzer).checkTop
	checks["P16"] = (*Analyzer).checkValues
	checks["P30"] = (*Analyzer).checkPure
	checks["P17"] = (*Analyzer).checkDIMACS
	checks["P19"] = (*Analyzer).checkFresh
}

func init() {
	checks["P20"] = (*Analyzer).checkSharing
	checks["P29"] = (*Analyzer).checkInvalid
	checks["P31"] = (*Analyzer).checkCost
	checks["P32"] = (*Analyzer).checkHelpers
	checks["P18"] = (*Analyzer).checkNumbers
	checks["P21"] = (*Analyzer).checkScoping
	checks["P22"] = (*Analyzer).checkReset
	checks["P23"] = (*Analyzer).checkVerdict
	checks["P24"] = (*Analyzer).checkCombinators
	checks["P34"] = (*Analyzer).checkQueries
	checks["P35"] = (*Analyzer).checkApart
	checks["P33"] = (*Analyzer).checkCalls
	checks["P25"] = (*Analyzer).checkOptimum
	checks["P26"] = (*Analyzer).checkValuesRead
	checks["P27"] = (*Analyzer).checkTemp
	checks["P28"] = (*Analyzer).checkFailures
}
