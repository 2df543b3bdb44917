package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func loadEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

// which parts of the analysis a property needs
var decodeProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C07": true, "C08": true, "C09": true, "C17": true, "C19": true, "C23": true, "C25": true}
var encodeProps = map[string]bool{"C06": true, "C10": true, "C13": true, "C14": true, "C16": true, "C18": true, "C26": true, "C27": true}

const undecidedRule = "the analysis decides every path"

func main() {
	debug.SetGCPercent(400)
	dir := flag.String("dir", "/repo", "repository to analyse")
	prop := flag.String("property", "", "property to decide; all when empty")
	verif := flag.String("verif", "/verif", "directory with known-findings.txt and evidence/")
	work := flag.String("worker", "", "analyse shard I/N for a parent process")
	sides := flag.Int("sides", 0, "1 decoding, 2 encoding, 3 both")
	flag.Parse()
	t0 := time.Now()
	if *sides == 0 {
		*sides = 3
		if decodeProps[*prop] {
			*sides = 1
		} else if encodeProps[*prop] {
			*sides = 2
		}
		if v, err := strconv.Atoi(os.Getenv("PV_SIDES")); err == nil {
			*sides = v
		}
	}
	if *work != "" {
		i, n := parseShard(*work)
		worker(*dir, *sides, i, n)
		return
	}
	if n := shards(); n > 1 {
		an, err := runSharded(*dir, *sides, n)
		if err != nil {
			fmt.Println(err, "- trying again with fewer processes")
			an, err = runSharded(*dir, *sides, 3)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if *prop == "" {
			dump(an)
			return
		}
		os.Exit(report(an, *prop, *verif, time.Since(t0)))
	}
	an, err := load(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	an.sides = *sides
	if f := os.Getenv("PV_CPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	an.run()
	if *prop == "" {
		dump(an)
		return
	}
	os.Exit(report(an, *prop, *verif, time.Since(t0)))
}

func dump(an *Analysis) {
	var ks []string
	for k := range an.j.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	cnt := map[string]int{}
	for _, k := range ks {
		o := an.j.obs[k]
		cnt[o.prop]++
		if o.bad > 0 {
			fmt.Printf("%s %s: %s\n    %s: %s (%d of %d)\n", o.prop, o.pos, o.fn, o.rule, o.detail, o.bad, o.n)
		}
	}
	fmt.Println(cnt)
	for _, u := range an.undec {
		fmt.Println("UNDECIDED", u)
	}
}

// findKey identifies a violation independently of line numbers.
func findKey(o *Ob) string { return o.rule + " @ " + o.fn }

type finding struct{ prop, key, what string }

// loadFindings reads lines "finding: property=ID key=[rule @ function] text".
func loadFindings(file string) []finding {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l, ok := strings.CutPrefix(sc.Text(), "finding: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(l, " key=[")
		key, what, _ := strings.Cut(rest, "] ")
		out = append(out, finding{id, key, what})
	}
	return out
}

func report(an *Analysis, prop, verif string, wall time.Duration) int {
	findings := loadFindings(filepath.Join(verif, "known-findings.txt"))
	var ks []string
	for k, o := range an.j.obs {
		if o.prop == prop {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	obligations, discharged, checks := 0, 0, 0
	rules := map[string]int{}
	fns := map[string]bool{}
	var samples []string
	var bad, undec []*Ob
	known := map[int]bool{}
	for _, k := range ks {
		o := an.j.obs[k]
		obligations++
		checks += o.n
		rules[o.rule]++
		fns[o.fn] = true
		if o.bad == 0 {
			discharged++
			if rules[o.rule] == 1 && len(samples) < 40 {
				samples = append(samples, fmt.Sprintf("%s: %s in %s (%d path instances)", o.pos, o.rule, o.fn, o.n))
			}
			continue
		}
		if o.rule == undecidedRule {
			undec = append(undec, o)
			continue
		}
		isKnown := false
		for i, f := range findings {
			if f.prop == prop && f.key == findKey(o) {
				known[i] = true
				isKnown = true
			}
		}
		if !isKnown {
			bad = append(bad, o)
		}
	}
	for i, f := range findings {
		if known[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.what)
		}
	}
	roots := an.rootLines
	for _, r := range an.done {
		roots = append(roots, fmt.Sprintf("%s: %d exits, %d abstract steps", r.name, r.exits, r.elapsed))
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var und []string
	for _, u := range undec {
		und = append(und, u.detail)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": wall.Seconds(), "violations": len(bad),
		"coverage": map[string]any{
			"explanation":       "Static analysis of /repo's current source: abstract interpretation of its SSA form (every function reached from the exported API, codec construction and every codec construction can publish), with one obligation per rule and construct; an obligation is discharged when it holds on every abstract path that reaches the construct. Functions listed as undecided exceed the analysis and count as not discharged.",
			"obligations":       obligations,
			"discharged":        discharged,
			"path_instances":    checks,
			"rules":             rules,
			"functions":         fl,
			"roots":             roots,
			"rounds":            an.round,
			"undecided":         und,
			"samples":           samples,
			"checker_cmd":       "/verif/check.sh " + prop,
			"trusted_base":      []string{"phpvet (this analyser)", "golang.org/x/tools/go/ssa", "the models of reflect, sync, strconv, bytes, sort and encoding primitives in phpvet/std.go and phpvet/rv.go"},
			"linear_arithmetic": statFM,
		},
		"assumptions": []string{"64-bit int", "the memory of destination and source values is not changed by other goroutines during a call", "custom (un)marshalers do not write to the bytes they are given beyond their length"},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evf := filepath.Join(verif, "evidence", prop+".json")
	if err := os.WriteFile(evf, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)\n", prop, obligations, discharged, len(undec), len(bad), wall.Seconds())
	for _, u := range undec {
		fmt.Printf("undecided: %s %s\n", u.pos, u.detail)
	}
	if len(bad) == 0 {
		return 0
	}
	rep := filepath.Join(verif, "evidence", prop+".violations.txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s: %s\n  rule: %s\n  %s\n  on %d of %d path instances\n", o.pos, o.fn, o.rule, o.detail, o.bad, o.n)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
	return 1
}
