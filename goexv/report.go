package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Violation is a construct of the source that breaks a property.
type Violation struct {
	Key   string `json:"key"`   // stable identification: rule, function
	Where string `json:"where"` // file:line
	Func  string `json:"function"`
	What  string `json:"what"`
}

// Report collects what one property check analysed and found.
type Report struct {
	mu     sync.Mutex
	prop   string
	tier   string
	seed   int64
	viol   map[string]*Violation
	nviol  int
	und    map[string]int
	oblig  map[string]int // rule -> obligations decided
	funcs  map[string]bool
	notes  []string
	start  time.Time
	reason string
	decl   func(fn string) string // where a function is declared
}

func NewReport(prop, tier string) *Report {
	return &Report{prop: prop, tier: tier, viol: map[string]*Violation{}, und: map[string]int{},
		oblig: map[string]int{}, funcs: map[string]bool{}, start: time.Now()}
}

func (r *Report) thorough() bool { return r.tier == "thorough" }

func (r *Report) ok(rule string, n int) {
	r.mu.Lock()
	r.oblig[rule] += n
	r.mu.Unlock()
}

func (r *Report) use(m *Machine) {
	r.mu.Lock()
	for s := range m.used {
		r.funcs[s.name] = true
	}
	r.mu.Unlock()
}

func (r *Report) bad(rule, fn, where, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := rule + " " + fn
	what = strings.ReplaceAll(what, "\n", "\\n")
	if len(what) > 1200 {
		what = what[:900] + " ... " + what[len(what)-300:]
	}
	r.nviol++
	if _, ok := r.viol[k]; !ok {
		r.viol[k] = &Violation{Key: k, Where: where, Func: fn, What: what}
	}
	r.oblig[rule]++
}

func (r *Report) undecided(what string) {
	r.mu.Lock()
	r.und[what]++
	r.mu.Unlock()
}

// stop records an evaluation that did not finish. A panic or an endless loop
// breaks the obligation; anything else leaves it undecided.
func (r *Report) stop(rule string, fn string, s *Stop, inst string) {
	if s.pos == "" && r.decl != nil {
		c := *s
		if c.fn == "" {
			c.fn = fn
		}
		c.pos = r.decl(c.fn)
		s = &c
	}
	switch s.kind {
	case "panic":
		r.bad(rule+":panic", s.fn, s.pos, fmt.Sprintf("%s (%s)", s.msg, inst))
	case "nontermination":
		r.bad(rule+":endless", s.fn, s.pos, fmt.Sprintf("%s (%s)", s.msg, inst))
	default:
		r.undecided(fmt.Sprintf("%s: %s", fn, s.msg))
	}
}

// guard runs f, turning failures of the analysis into undecided obligations.
func (r *Report) guard(name string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case evalFail:
				r.undecided(name + ": " + y.msg)
			case noResult:
				r.undecided(name + ": " + y.msg)
			case *Stop:
				r.stop("effect", name, y, "")
			default:
				buf := make([]byte, 4096)
				n := runtime.Stack(buf, false)
				if os.Getenv("GXV") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", x, buf[:n])
				}
				r.undecided(fmt.Sprintf("%s: analysis failed: %v", name, x))
			}
		}
	}()
	f()
}

// parallel runs the jobs on all cores.
func (r *Report) parallel(jobs []func()) {
	ch := make(chan func())
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r.guard("job", j)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Site     string `json:"site"`
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

// finish prints the outcome, writes the evidence file and returns the exit
// status.
func (r *Report) finish(verif string, a *Analyzer) int {
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		json.Unmarshal(b, &kf)
	}
	var fresh []*Violation
	var keys []string
	for k := range r.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	known := 0
	for _, k := range keys {
		v := r.viol[k]
		listed := false
		for _, f := range kf.Known {
			if f.Property == r.prop && f.Key == v.Key {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.prop, v.Key, f.What)
			}
		}
		if listed {
			known++
			continue
		}
		fresh = append(fresh, v)
	}
	replay := filepath.Join(verif, "evidence", r.prop+".violations.json")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	if len(fresh) > 0 {
		b, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(replay, b, 0o644)
		for _, v := range fresh {
			fmt.Printf("%s: %s: %s [%s]\n", v.Where, v.Func, v.What, v.Key)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
		}
	}
	var und []string
	nu := 0
	for k, n := range r.und {
		und = append(und, fmt.Sprintf("%s (x%d)", k, n))
		nu += n
	}
	sort.Strings(und)
	for i, u := range und {
		if i < 10 {
			fmt.Println("UNDECIDED", u)
		}
	}
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	var fs []string
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	var vs []map[string]any
	for _, v := range fresh {
		vs = append(vs, map[string]any{"key": v.Key, "where": v.Where, "function": v.Func, "what": v.What})
	}
	cov := map[string]any{
		"explanation": r.reason,
		"counts": map[string]any{
			"obligations_decided":  total,
			"by_rule":              r.oblig,
			"functions_summarised": len(fs),
			"violations":           len(fresh),
			"known_findings":       known,
			"undecided":            nu,
		},
		"functions": fs,
		"undecided": und,
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"assumptions": r.notes,
	}
	if len(vs) > 0 {
		ev["violations"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d obligations decided over %d functions, %d violations, %d known, %d undecided, %.1fs\n",
		r.prop, r.tier, total, len(fs), len(fresh), known, nu, time.Since(r.start).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if total == 0 {
		fmt.Println("nothing could be decided:", strings.Join(und, "; "))
		return 2
	}
	return 0
}
