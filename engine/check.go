package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type outcome struct {
	in  *Instance
	res *Result
	err string
}

// checkProperty runs every harness instance of a property and reports.
func checkProperty(id string, thorough bool) int {
	t0 := time.Now()
	var ins []*Instance
	for _, in := range registry {
		if in.Thorough && !thorough {
			continue
		}
		for _, p := range in.Props {
			if p == id {
				ins = append(ins, in)
				break
			}
		}
	}
	if len(ins) == 0 {
		fmt.Printf("no harness for %s\n", id)
		return 2
	}
	// long ones first
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].Cost > ins[j].Cost })
	outs := make([]*outcome, len(ins))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, in := range ins {
		i, in := i, in
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			outs[i] = spawn(in, thorough)
		}()
	}
	wg.Wait()

	bad := []string{}
	nviol := 0
	tot := &Result{ByLogic: map[string]int{}}
	var encoded, assumed = map[string]bool{}, map[string]bool{}
	var rows []map[string]interface{}
	known := loadKnown(id)
	replayed := 0
	var lines []string
	for _, o := range outs {
		row := map[string]interface{}{"harness": o.in.Name, "function": o.in.Pkg + "." + o.in.Func, "bounds": o.in.Bounds}
		rows = append(rows, row)
		if o.err != "" {
			bad = append(bad, o.in.Name+": "+o.err)
			row["error"] = o.err
			continue
		}
		r := o.res
		row["paths"], row["obligations"], row["discharged"] = r.Paths, r.Obligations, r.Proved
		row["queries"], row["solver_s"], row["wall_s"] = r.Queries, round2(r.SolverS), round2(r.WallS)
		row["instructions"] = r.Steps
		row["reached"] = r.Reached
		tot.Paths += r.Paths
		tot.Obligations += r.Obligations
		tot.Proved += r.Proved
		tot.BySolver += r.BySolver
		tot.Queries += r.Queries
		tot.Unsat += r.Unsat
		tot.Sat += r.Sat
		tot.UnknownQ += r.UnknownQ
		tot.Identities += r.Identities
		tot.SolverS += r.SolverS
		tot.Merges += r.Merges
		tot.Steps += r.Steps
		for k, v := range r.ByLogic {
			tot.ByLogic[k] += v
		}
		for _, e := range r.Encoded {
			encoded[e] = true
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		confirmed := 0
		seenMsg := map[string]int{}
		for vi, v := range append(append([]*Violation{}, r.Violations...), r.Candidates...) {
			if seenMsg[v.Msg] >= 3 || confirmed >= 4 {
				continue
			}
			seenMsg[v.Msg]++
			path, ok, out := replay(id, o.in, v, vi)
			replayed++
			if !ok && !v.Validated {
				continue // the assertion is listed as undecided
			}
			if !ok {
				bad = append(bad, fmt.Sprintf("%s: counterexample for %q does not reproduce on the real code (%s)", o.in.Name, v.Msg, lastLine(out)))
				continue
			}
			confirmed++
			if k := matchKnown(known, o.in, v); k != "" {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k))
				continue
			}
			nviol++
			fmt.Printf("%s: %s at %s\n", o.in.Name, v.Msg, v.Where)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
		}
		if confirmed > 0 {
			continue
		}
		for _, e := range r.Errors {
			bad = append(bad, o.in.Name+": "+e)
		}
		for _, u := range r.Unknown {
			bad = append(bad, o.in.Name+": undecided: "+u)
		}
		for l, s := range r.Reached {
			if s != "witness" && s != "sat" {
				bad = append(bad, fmt.Sprintf("%s: vacuous: %q is not reached (%s)", o.in.Name, l, s))
			}
		}
		if r.Obligations == 0 && len(r.Violations) == 0 {
			bad = append(bad, o.in.Name+": no obligation generated")
		}
	}
	keys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": round2(time.Since(t0).Seconds()), "violations": nviol,
		"assumptions": keys(assumed),
		"coverage": map[string]interface{}{
			"explanation": "Bounded symbolic execution of the go/ssa form of the current /repo sources; every assertion is decided for all values of the symbolic inputs within the bounds of each harness by an SMT solver (finite fields, integers, bit-vectors), path by path. Unsat answers are trusted to the solver; counterexamples are replayed against the compiled code before they are reported.",
			"harnesses":   rows, "functions_encoded": keys(encoded),
			"paths": tot.Paths, "obligations": tot.Obligations, "discharged": tot.Proved, "assertions_decided_by_their_own_query": tot.BySolver,
			"identities_proved_by_solver": tot.Identities,
			"queries":                     tot.Queries, "unsat": tot.Unsat, "sat": tot.Sat, "unknown": tot.UnknownQ, "queries_by_logic": tot.ByLogic,
			"solver_s": round2(tot.SolverS), "ssa_instructions": tot.Steps, "branches_merged": tot.Merges,
			"counterexamples_replayed": replayed, "not_decided": bad,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)

	for _, x := range bad {
		fmt.Println("INCOMPLETE:", x)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d/%d obligations, %d queries, solver %.1fs, wall %.1fs\n", id, tier, len(ins), tot.Paths, tot.Proved, tot.Obligations, tot.Queries, tot.SolverS, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	if tot.Proved == 0 {
		return 2 // nothing was explored
	}
	return 0
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	x := l[len(l)-1]
	if len(x) > 300 {
		x = x[:300]
	}
	return x
}

// spawn runs one instance in a child process.
func spawn(in *Instance, thorough bool) *outcome {
	exe, err := os.Executable()
	if err != nil {
		return &outcome{in: in, err: err.Error()}
	}
	cmd := exec.Command(exe, "run", in.Name)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return &outcome{in: in, err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(time.Duration(in.timeout()+120) * time.Second):
		cmd.Process.Kill()
		return &outcome{in: in, err: "time limit"}
	}
	if err != nil {
		return &outcome{in: in, err: "engine failed: " + err.Error() + ": " + firstLines(errb.String(), 12)}
	}
	r := &Result{}
	if err := json.Unmarshal(out.Bytes(), r); err != nil {
		return &outcome{in: in, err: "engine output: " + err.Error()}
	}
	return &outcome{in: in, res: r}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// ---- replay on the compiled code ---------------------------------------------------

const replayTest = `package %s

import (
	"crypto/rand"
	"io"
	"math/big"
	"os"
	"testing"

	"github.com/ing-bank/zkrp/verifrt"
)

type verifTape struct{ i int }

func (t *verifTape) Read(p []byte) (int, error) {
	v := new(big.Int)
	if t.i < len(verifrt.R.Draws) {
		v.SetString(verifrt.R.Draws[t.i], 10)
	} else {
		for k := range p {
			p[k] = byte(37*t.i + 11*k + 5)
		}
		if len(p) > 0 {
			p[0] = 0
		}
		v.SetBytes(p)
	}
	t.i++
	b := v.Bytes()
	if len(b) > len(p) {
		b = b[len(b)-len(p):]
	}
	for k := range p {
		p[k] = 0
	}
	copy(p[len(p)-len(b):], b)
	verifrt.DrawValues = append(verifrt.DrawValues, v)
	return len(p), nil
}

var _ io.Reader = (*verifTape)(nil)

func TestVerifReplay(t *testing.T) {
	verifrt.Load(os.Getenv("VERIF_REPLAY"))
	rand.Reader = &verifTape{}
	%s
	for _, f := range verifrt.Run(%s) {
		t.Errorf("VERIF-VIOLATION: %%s", f)
	}
}
`

func replay(id string, in *Instance, v *Violation, n int) (path string, ok bool, out string) {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	base := filepath.Join(dir, fmt.Sprintf("%s-%s-%d", id, in.Name, n))
	path = base + ".json"
	rec := map[string]interface{}{
		"property": id, "harness": in.Name, "package": in.Pkg, "function": in.Func, "message": v.Msg, "where": v.Where,
		"params": in.Config.Params, "vars": v.Vars, "draws": v.Draws, "hashes": v.Hashes, "validated_in_engine": v.Validated,
		"how": "symgo replay FILE runs the harness natively with these values (go test -overlay)",
	}
	b, _ := json.MarshalIndent(rec, "", " ")
	os.WriteFile(path, b, 0o644)
	ok, out = runReplay(in, path)
	return
}

// hashOverlay makes the outputs of crypto/sha256 programmable: the properties
// hold for every hash function, so a counterexample names the outputs of its own.
func hashOverlay(tmp string, ov map[string]string) bool {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return false
	}
	src := filepath.Join(strings.TrimSpace(string(o)), "src/crypto/sha256/sha256.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return false
	}
	s := string(b)
	for _, f := range []string{"New() hash.Hash {", "Sum256(data []byte) [Size]byte {"} {
		if strings.Count(s, "\nfunc "+f) != 1 {
			return false
		}
		s = strings.Replace(s, "\nfunc "+f, "\nfunc verif"+f, 1)
	}
	s += `
// VerifHook programs the outputs.
var VerifHook func(real []byte) []byte

type verifHash struct{ hash.Hash }

func (h verifHash) Sum(b []byte) []byte {
	if VerifHook != nil {
		if o := VerifHook(h.Hash.Sum(nil)); o != nil {
			return append(b, o...)
		}
	}
	return h.Hash.Sum(b)
}

func New() hash.Hash { return verifHash{verifNew()} }

func Sum256(data []byte) (r [Size]byte) {
	h := New()
	h.Write(data)
	copy(r[:], h.Sum(nil))
	return
}
`
	f := filepath.Join(tmp, "sha256.go")
	if os.WriteFile(f, []byte(s), 0o644) != nil {
		return false
	}
	ov[src] = f
	return true
}

// randOverlay records the bounds of the random numbers drawn.
func randOverlay(tmp string, ov map[string]string) bool {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return false
	}
	src := filepath.Join(strings.TrimSpace(string(o)), "src/crypto/rand/util.go")
	b, err := os.ReadFile(src)
	const head = "\nfunc Int(rand io.Reader, max *big.Int) (n *big.Int, err error) {\n"
	if err != nil || strings.Count(string(b), head) != 1 {
		return false
	}
	s := strings.Replace(string(b), head, head+"\tif VerifBound != nil {\n\t\tVerifBound(max)\n\t}\n", 1)
	s += "\n// VerifBound is told the bounds.\nvar VerifBound func(*big.Int)\n"
	f := filepath.Join(tmp, "randutil.go")
	if os.WriteFile(f, []byte(s), 0o644) != nil {
		return false
	}
	ov[src] = f
	return true
}

const randCode = `
	rand.VerifBound = func(m *big.Int) { verifrt.DrawBounds = append(verifrt.DrawBounds, new(big.Int).Set(m)) }
`

const hookCode = `
	n := 0
	seen := map[string][]byte{} // equal inputs have equal outputs
	sha256.VerifHook = func(real []byte) []byte {
		if verifrt.InMapToGroup() || n >= len(verifrt.R.Hashes) {
			return nil
		}
		z, _ := new(big.Int).SetString(verifrt.R.Hashes[n], 10)
		n++
		if o, ok := seen[string(real)]; ok {
			return o
		}
		o := z.FillBytes(make([]byte, 32))
		seen[string(real)] = o
		return o
	}`

// runReplay runs the harness natively with the recorded values: first with the
// hash outputs of the counterexample, then with the real hash function.
func runReplay(in *Instance, path string) (bool, string) {
	var rec struct {
		Message string
		Hashes  []string
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return false, err.Error()
	}
	json.Unmarshal(b, &rec)
	out := ""
	for _, hook := range []bool{true, false} {
		if hook && len(rec.Hashes) == 0 {
			continue
		}
		ok, o := runReplay1(in, path, rec.Message, hook)
		if ok {
			return true, o
		}
		out = o
	}
	return false, out
}

func runReplay1(in *Instance, path, msg string, hook bool) (bool, string) {
	ov, err := overlayFor(in)
	if err != nil {
		return false, err.Error()
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	if _, content, err := loadPackages(in); err == nil {
		for k, v := range ov {
			if o, err := os.ReadFile(v); err == nil && string(o) != string(content[k]) {
				ov[k] = filepath.Join(tmp, filepath.Base(k))
				os.WriteFile(ov[k], content[k], 0o644)
			}
		}
	}
	src, code := replayTest, ""
	if hook {
		if !hashOverlay(tmp, ov) {
			return false, "the hash function can not be programmed"
		}
		code = hookCode
		src = strings.Replace(src, "import (", "import (\n\t\"crypto/sha256\"", 1)
	}
	if randOverlay(tmp, ov) {
		code = randCode + code
	}
	test := filepath.Join(tmp, "replay_test.go")
	os.WriteFile(test, []byte(fmt.Sprintf(src, filepath.Base(in.Pkg), code, in.Func)), 0o644)
	ov[filepath.Join(repoDir, in.Pkg, "zz_verif_replay_test.go")] = test
	ovj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ovj, 0o644)
	cmd := exec.Command("timeout", "240", "go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-run", "^TestVerifReplay$", "./"+in.Pkg)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+path)
	o, _ := cmd.CombinedOutput()
	s := string(o)
	return strings.Contains(s, "VERIF-VIOLATION: "+msg) || strings.Contains(s, "VERIF-VIOLATION: the code panics") && strings.Contains(msg, "panic") || strings.Contains(s, "panic: test timed out") && strings.Contains(msg, "terminate"), s
}

// ---- known findings -------------------------------------------------------------------

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"`
	What     string `json:"what"`
}

func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	var r []knownFinding
	for _, k := range f.Findings {
		if k.Property == id {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(ks []knownFinding, in *Instance, v *Violation) string {
	for _, k := range ks {
		if k.Harness == in.Name && k.Message == v.Msg {
			return k.What
		}
	}
	return ""
}
