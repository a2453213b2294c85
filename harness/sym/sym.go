// Package sym is the interface between the harnesses and the symbolic
// executor (gosym). The executor intercepts these functions: inputs become
// solver variables, Assume and Assert become constraints and queries. Built
// natively, the same harness replays one concrete assignment (a model).
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"sync"
)

type item struct {
	Harness string            `json:"harness"`
	Case    int               `json:"case"`
	Model   map[string]uint64 `json:"model"`
}

type result struct {
	Index  int      `json:"index"`
	Status string   `json:"status"` // ok | violation | panic | assume | missing
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type check struct {
	cases int
	f     func(int)
}

type stop struct{}

var (
	mu       sync.Mutex
	checks   = map[string]check{}
	cur      map[string]uint64
	obs      []string
	violated string
	assumed  bool
	race     = os.Getenv("SYM_RACE") == "1"
)

// Check registers a harness; case numbers run from 0 to cases-1.
func Check(name string, cases int, bound string, f func(int)) {
	checks[name] = check{cases, f}
}

// Main replays the models in the file named by the first argument.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: replay MODELS.json")
		os.Exit(2)
	}
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var items []item
	if data[0] == '{' {
		var it item
		err = json.Unmarshal(data, &it)
		items = []item{it}
	} else {
		err = json.Unmarshal(data, &items)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriter(os.Stdout)
	bad := false
	for i, it := range items {
		r := run(it)
		r.Index = i
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if r.Status == "violation" || r.Status == "panic" {
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
}

func run(it item) (r result) {
	c, ok := checks[it.Harness]
	if !ok {
		return result{Status: "missing"}
	}
	cur, obs, violated, assumed = it.Model, nil, "", false
	defer func() {
		e := recover()
		r.Obs = obs
		switch {
		case violated != "":
			r.Status, r.Msg = "violation", violated
		case assumed:
			r.Status = "assume"
		case e != nil:
			r.Status, r.Msg = "panic", fmt.Sprint(e)
		default:
			r.Status = "ok"
		}
	}()
	c.f(it.Case)
	return
}

func get(name string) uint64 { return cur[name] }

// Symbolic inputs. A name denotes one variable per path.
func Byte(name string) byte       { return byte(get(name)) }
func Uint8(name string) uint8     { return uint8(get(name)) }
func Bool(name string) bool       { return get(name) != 0 }
func Int64(name string) int64     { return int64(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Int32(name string) int32     { return int32(get(name)) }
func Rune32(name string) rune     { return rune(int32(get(name))) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }

// Int is an integer between lo and hi inclusive.
func Int(name string, lo, hi int) int {
	if hi < lo {
		Assume(false)
	}
	return lo + int(get(name))
}

// Choose explores 0..n-1 one by one.
func Choose(name string, n int) int { return int(get(name)) }

// String is a string of n arbitrary bytes.
func String(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name + "[" + strconv.Itoa(i) + "]"))
	}
	return string(b)
}

// Concrete splits the exploration on the value of v.
func Concrete(v int) int { return v }

// Decide splits the exploration on b.
func Decide(b bool) bool { return b }

func Assume(b bool) {
	if !b {
		assumed = true
		panic(stop{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		mu.Lock()
		if violated == "" && !assumed {
			violated = msg
		}
		mu.Unlock()
		panic(stop{})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Cover marks a reachability witness.
func Cover(label string) {}

// Observations are compared between the executor and the native run.
func Obs(label string, v int64) {
	obs = append(obs, label+"="+strconv.FormatInt(v, 10))
}
func ObsS(label string, v string) {
	obs = append(obs, label+"="+strconv.Quote(v))
}
func ObsB(label string, v bool) {
	obs = append(obs, label+"="+strconv.FormatBool(v))
}
func ObsF(label string, v float64) {
	obs = append(obs, label+"=f"+strconv.FormatUint(math.Float64bits(v), 16))
}

// And, Or and IfInt evaluate all operands and do not split the exploration.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func IfInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// SameFloat compares bit patterns.
func SameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// MonitorBegin/End delimit code that may write only to memory it allocates
// itself or to synchronised memory.
func MonitorBegin() {}
func MonitorEnd()   {}

// AnyMapOrder makes map iteration order a free choice.
func AnyMapOrder(on bool) {}

// Symbolic is true under the executor.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// StepLimit bounds the instructions of one path; beyond it the path counts as
// a hang (to be confirmed by the native replay).
func StepLimit(n int) {}

// Concurrent runs f(0)..f(n-1): natively in goroutines, symbolically one after
// the other under the sharing monitor.
func Concurrent(n int, f func(i int)) {
	if Symbolic() {
		MonitorBegin()
		for i := 0; i < n; i++ {
			f(i)
		}
		MonitorEnd()
		return
	}
	if !race {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 4*n; i++ { // each several times: it may be the only one to write
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { recover() }()
			<-start
			f(i % n)
		}(i)
	}
	close(start)
	wg.Wait()
}
