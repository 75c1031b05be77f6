// The driver replays jobs against the Go library and reports what it did. It
// reads a JSON array of jobs from stdin and writes one JSON line per job.
package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math"
	"os"

	"aaa.scripted"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
)

// num is a float64 that survives JSON when it is not finite.
type num float64

func (n *num) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		switch s {
		case "nan":
			*n = num(math.NaN())
		case "inf":
			*n = num(math.Inf(1))
		case "-inf":
			*n = num(math.Inf(-1))
		case "minint":
			*n = num(math.MinInt64)
		default:
			return fmt.Errorf("bad number %q", s)
		}
		return nil
	}
	var f float64
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	*n = num(f)
	return nil
}

func (n num) MarshalJSON() ([]byte, error) {
	f := float64(n)
	switch {
	case math.IsNaN(f):
		return []byte(`"nan"`), nil
	case math.IsInf(f, 1):
		return []byte(`"inf"`), nil
	case math.IsInf(f, -1):
		return []byte(`"-inf"`), nil
	}
	return json.Marshal(f)
}

type opts struct {
	Eps, Delta     num
	Noise          string // L, G or empty for the default
	L0, MCPP       int64
	Lower, Upper   num
	Height, Branch int
	Pre            int64
}

func (o opts) noise() noise.Noise {
	switch o.Noise {
	case "L":
		return noise.Laplace()
	case "G":
		return noise.Gaussian()
	}
	return nil
}

// spy is a noise.Noise that records its calls and adds scripted offsets.
type spy struct {
	offI   int64
	offF   float64
	jitter bool
	seq    int
	thr    float64
	width  float64
	Calls  [][]num
}

func (s *spy) AddNoiseInt64(x, l0, lInf int64, eps, delta float64) (int64, error) {
	s.Calls = append(s.Calls, []num{0, num(x), num(l0), num(lInf), num(eps), num(delta)})
	return x + s.offI, nil
}

func (s *spy) AddNoiseFloat64(x float64, l0 int64, lInf, eps, delta float64) (float64, error) {
	s.Calls = append(s.Calls, []num{1, num(x), num(l0), num(lInf), num(eps), num(delta)})
	if s.jitter {
		s.seq++
		return x + float64((s.seq*7919)%23-11)*s.offF, nil
	}
	return x + s.offF, nil
}

func (s *spy) Threshold(l0 int64, lInf, eps, noiseDelta, thresholdDelta float64) (float64, error) {
	s.Calls = append(s.Calls, []num{2, num(thresholdDelta), num(l0), num(lInf), num(eps), num(noiseDelta)})
	return s.thr, nil
}

func (s *spy) ComputeConfidenceIntervalInt64(x, l0, lInf int64, eps, delta, alpha float64) (noise.ConfidenceInterval, error) {
	s.Calls = append(s.Calls, []num{3, num(x), num(l0), num(lInf), num(eps), num(delta), num(alpha)})
	return noise.ConfidenceInterval{LowerBound: float64(x) - s.width, UpperBound: float64(x) + s.width}, nil
}

func (s *spy) ComputeConfidenceIntervalFloat64(x float64, l0 int64, lInf, eps, delta, alpha float64) (noise.ConfidenceInterval, error) {
	s.Calls = append(s.Calls, []num{4, num(x), num(l0), num(lInf), num(eps), num(delta), num(alpha)})
	return noise.ConfidenceInterval{LowerBound: x - s.width, UpperBound: x + s.width}, nil
}

// agg wraps an aggregation of any kind.
type agg struct {
	kind  string
	count *dpagg.Count
	sumI  *dpagg.BoundedSumInt64
	sumF  *dpagg.BoundedSumFloat64
	mean  *dpagg.BoundedMean
	vari  *dpagg.BoundedVariance
	std   *dpagg.BoundedStandardDeviation
	quant *dpagg.BoundedQuantiles
	part  *dpagg.PreAggSelectPartition
}

func toInt(f num) int64 {
	if float64(f) == math.MinInt64 {
		return math.MinInt64
	}
	return int64(f)
}

func build(kind string, o opts) (*agg, error) {
	a := &agg{kind: kind}
	var err error
	e, d, n := float64(o.Eps), float64(o.Delta), o.noise()
	lo, up := float64(o.Lower), float64(o.Upper)
	switch kind {
	case "count":
		a.count, err = dpagg.NewCount(&dpagg.CountOptions{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, Noise: n})
	case "sumi":
		a.sumI, err = dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, Lower: toInt(o.Lower), Upper: toInt(o.Upper), Noise: n})
	case "sumf":
		a.sumF, err = dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, Lower: lo, Upper: up, Noise: n})
	case "mean":
		a.mean, err = dpagg.NewBoundedMean(&dpagg.BoundedMeanOptions{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MCPP, Lower: lo, Upper: up, Noise: n})
	case "var":
		a.vari, err = dpagg.NewBoundedVariance(&dpagg.BoundedVarianceOptions{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MCPP, Lower: lo, Upper: up, Noise: n})
	case "std":
		a.std, err = dpagg.NewBoundedStandardDeviation(&dpagg.BoundedStandardDeviationOptions{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MCPP, Lower: lo, Upper: up, Noise: n})
	case "quant":
		a.quant, err = dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, MaxContributionsPerPartition: o.MCPP, Lower: lo, Upper: up, Noise: n, TreeHeight: o.Height, BranchingFactor: o.Branch})
	case "part":
		a.part, err = dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: e, Delta: d, MaxPartitionsContributed: o.L0, PreThreshold: o.Pre})
	default:
		err = fmt.Errorf("driver: unknown kind %q", kind)
	}
	return a, err
}

func (a *agg) add(v float64, by bool) error {
	switch a.kind {
	case "count":
		if v == 1 && !by {
			return a.count.Increment()
		}
		return a.count.IncrementBy(int64(v))
	case "sumi":
		if math.IsInf(v, 1) {
			return a.sumI.Add(math.MaxInt64)
		} else if math.IsInf(v, -1) {
			return a.sumI.Add(math.MinInt64)
		}
		return a.sumI.Add(int64(v))
	case "sumf":
		return a.sumF.Add(v)
	case "mean":
		return a.mean.Add(v)
	case "var":
		return a.vari.Add(v)
	case "std":
		return a.std.Add(v)
	case "quant":
		return a.quant.Add(v)
	}
	if v == 1 && !by {
		return a.part.Increment()
	}
	return a.part.IncrementBy(int64(v))
}

func (a *agg) merge(b *agg) error {
	switch a.kind {
	case "count":
		return a.count.Merge(b.count)
	case "sumi":
		return a.sumI.Merge(b.sumI)
	case "sumf":
		return a.sumF.Merge(b.sumF)
	case "mean":
		return a.mean.Merge(b.mean)
	case "var":
		return a.vari.Merge(b.vari)
	case "std":
		return a.std.Merge(b.std)
	case "quant":
		return a.quant.Merge(b.quant)
	}
	return a.part.Merge(b.part)
}

func (a *agg) value() interface{} {
	switch a.kind {
	case "count":
		return a.count
	case "sumi":
		return a.sumI
	case "sumf":
		return a.sumF
	case "mean":
		return a.mean
	case "var":
		return a.vari
	case "std":
		return a.std
	case "quant":
		return a.quant
	}
	return a.part
}

// copyTo serialises a and reads the bytes back into b.
func (a *agg) copyTo(b *agg) error {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(a.value()); err != nil {
		return err
	}
	if b.value() == nil {
		return fmt.Errorf("driver: no target")
	}
	if err := gob.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(b.value()); err != nil {
		return fmt.Errorf("DECODE %v", err)
	}
	return nil
}

func (a *agg) noises() []*noise.Noise {
	switch a.kind {
	case "count":
		return []*noise.Noise{&a.count.Noise}
	case "sumi":
		return []*noise.Noise{&a.sumI.Noise}
	case "sumf":
		return []*noise.Noise{&a.sumF.Noise}
	case "mean":
		return []*noise.Noise{&a.mean.Count.Noise, &a.mean.NormalizedSum.Noise}
	case "var":
		return []*noise.Noise{&a.vari.Count.Noise, &a.vari.NormalizedSum.Noise, &a.vari.NormalizedSumOfSquares.Noise}
	case "std":
		return []*noise.Noise{&a.std.Variance.Count.Noise, &a.std.Variance.NormalizedSum.Noise, &a.std.Variance.NormalizedSumOfSquares.Noise}
	case "quant":
		return []*noise.Noise{&a.quant.Noise}
	}
	return nil
}

// with runs f with the spy in place of the noise.
func (a *agg) with(s *spy, f func() ([]num, error)) ([]num, error) {
	ns := a.noises()
	old := make([]noise.Noise, len(ns))
	for i, n := range ns {
		old[i] = *n
		*n = s
	}
	v, err := f()
	for i, n := range a.noises() {
		*n = old[i]
	}
	return v, err
}

func (a *agg) result(arg float64) ([]num, error) {
	one := func(f float64, err error) ([]num, error) { return []num{num(f)}, err }
	switch a.kind {
	case "count":
		v, err := a.count.Result()
		return one(float64(v), err)
	case "sumi":
		v, err := a.sumI.Result()
		return one(float64(v), err)
	case "sumf":
		return one(a.sumF.Result())
	case "mean":
		return one(a.mean.Result())
	case "var":
		if arg > 0 {
			r, err := a.vari.ResultWithCountAndMean()
			return []num{num(r.Variance), num(r.Count), num(r.Mean)}, err
		}
		return one(a.vari.Result())
	case "std":
		return one(a.std.Result())
	case "quant":
		return one(a.quant.Result(arg))
	}
	v, err := a.part.ShouldKeepPartition()
	if v {
		return []num{1}, err
	}
	return []num{0}, err
}

func (a *agg) thresholded(td float64, pre int64) ([]num, error) {
	opt := func(p *int64, err error) ([]num, error) {
		if err != nil || p == nil {
			return nil, err
		}
		return []num{num(*p)}, nil
	}
	switch a.kind {
	case "count":
		if pre >= 0 {
			return opt(a.count.PreThresholdedResult(pre, td))
		}
		return opt(a.count.ThresholdedResult(td))
	case "sumi":
		return opt(a.sumI.ThresholdedResult(td))
	case "sumf":
		p, err := a.sumF.ThresholdedResult(td)
		if err != nil || p == nil {
			return nil, err
		}
		return []num{num(*p)}, nil
	}
	return nil, fmt.Errorf("driver: kind %s has no thresholded result", a.kind)
}

func (a *agg) ci(alpha float64) ([]num, error) {
	var c noise.ConfidenceInterval
	var err error
	switch a.kind {
	case "count":
		c, err = a.count.ComputeConfidenceInterval(alpha)
	case "sumi":
		c, err = a.sumI.ComputeConfidenceInterval(alpha)
	case "sumf":
		c, err = a.sumF.ComputeConfidenceInterval(alpha)
	case "mean":
		c, err = a.mean.ComputeConfidenceInterval(alpha)
	default:
		err = fmt.Errorf("driver: kind %s has no confidence interval", a.kind)
	}
	return []num{num(c.LowerBound), num(c.UpperBound)}, err
}

type op struct {
	Op         string
	O, P       int
	V          num
	By         bool
	OffI       int64
	OffF       float64
	Jitter     bool
	Thr, Width float64
	TD         float64
	Pre        int64
	Real       bool // with the library's own noise
}

type job struct {
	Job  string
	Kind string
	Objs []opts
	Ops  []op
	// function jobs
	Fn    string
	Noise string
	Args  []num
	N     int
	Opt   opts
}

type outcome struct {
	Ok    bool    `json:"ok"`
	Err   string  `json:"err,omitempty"`
	Vals  []num   `json:"vals"`
	Calls [][]num `json:"calls"`
}

func fail(err error) outcome { return outcome{Err: err.Error()} }

func script(j job) []outcome {
	objs := make([]*agg, len(j.Objs))
	for i, o := range j.Objs {
		a, err := build(j.Kind, o)
		if err != nil {
			return []outcome{{Err: "BUILD " + err.Error()}}
		}
		objs[i] = a
	}
	spies := make([]*spy, len(objs))
	var out []outcome
	for _, o := range j.Ops {
		a := objs[o.O]
		s := &spy{offI: o.OffI, offF: o.OffF, jitter: o.Jitter, thr: o.Thr, width: o.Width}
		if o.Jitter && spies[o.O] != nil {
			s.seq = spies[o.O].seq
		}
		spies[o.O] = s
		var v []num
		var err error
		call := func(f func() ([]num, error)) {
			if o.Real {
				v, err = f()
			} else {
				v, err = a.with(s, f)
			}
		}
		switch o.Op {
		case "add":
			err = a.add(float64(o.V), o.By)
		case "merge":
			err = a.merge(objs[o.P])
		case "copy":
			err = a.copyTo(objs[o.P])
		case "res":
			call(func() ([]num, error) { return a.result(float64(o.V)) })
		case "thr":
			call(func() ([]num, error) { return a.thresholded(o.TD, o.Pre) })
		case "ci":
			call(func() ([]num, error) { return a.ci(o.TD) })
		default:
			err = fmt.Errorf("driver: unknown op %q", o.Op)
		}
		r := outcome{Ok: err == nil, Vals: v, Calls: s.Calls}
		if err != nil {
			r.Err = err.Error()
		}
		out = append(out, r)
	}
	return out
}

func noiseOf(s string) noise.Noise {
	if s == "G" {
		return noise.Gaussian()
	}
	return noise.Laplace()
}

type deltaForThreshold interface {
	DeltaForThreshold(l0 int64, lInf, eps, delta, threshold float64) (float64, error)
}

func function(j job) outcome {
	f := func(i int) float64 { return float64(j.Args[i]) }
	k := func(i int) int64 { return int64(j.Args[i]) }
	n := noiseOf(j.Noise)
	one := func(v float64, err error) outcome {
		if err != nil {
			return fail(err)
		}
		return outcome{Ok: true, Vals: []num{num(v)}}
	}
	switch j.Fn {
	case "sigma": // l0, linf, eps, delta
		return one(noise.SigmaForGaussian(k(0), f(1), f(2), f(3)), nil)
	case "threshold": // l0, linf, eps, delta, thresholdDelta
		return one(n.Threshold(k(0), f(1), f(2), f(3), f(4)))
	case "deltafor": // l0, linf, eps, delta, threshold
		return one(n.(deltaForThreshold).DeltaForThreshold(k(0), f(1), f(2), f(3), f(4)))
	case "cif": // x, l0, linf, eps, delta, alpha
		c, err := n.ComputeConfidenceIntervalFloat64(f(0), k(1), f(2), f(3), f(4), f(5))
		if err != nil {
			return fail(err)
		}
		return outcome{Ok: true, Vals: []num{num(c.LowerBound), num(c.UpperBound)}}
	case "cii":
		x := k(0)
		if len(j.Args) > 6 { // an offset, for numbers that are no float64
			x += k(6)
		}
		c, err := n.ComputeConfidenceIntervalInt64(x, k(1), k(2), f(3), f(4), f(5))
		if err != nil {
			return fail(err)
		}
		return outcome{Ok: true, Vals: []num{num(c.LowerBound), num(c.UpperBound)}}
	case "clampi", "clampf": // x, lower, upper
		if j.Fn == "clampi" {
			v, err := dpagg.ClampInt64(k(0), k(1), k(2))
			return one(float64(v), err)
		}
		return one(dpagg.ClampFloat64(f(0), f(1), f(2)))
	case "uniformh": // the uniform distribution, in Args[0] cells
		h := make([]num, int(f(0)))
		for i := 0; i < j.N; i++ {
			u := rand.Uniform()
			if !(u > 0 && u <= 1) {
				return fail(fmt.Errorf("uniform %v", u))
			}
			h[int(math.Ceil(u*f(0)))-1]++
		}
		return outcome{Ok: true, Vals: h}
	case "i63h":
		h := make([]num, int(f(0)))
		for i := 0; i < j.N; i++ {
			h[rand.I63n(k(0))]++
		}
		return outcome{Ok: true, Vals: h}
	case "geoh", "boolh", "signh":
		h := make([]num, 64)
		for i := 0; i < j.N; i++ {
			switch j.Fn {
			case "geoh":
				h[int(math.Min(63, rand.Geometric()))]++
			case "boolh":
				if rand.Boolean() {
					h[1]++
				} else {
					h[0]++
				}
			case "signh":
				h[int(rand.Sign()+1)]++
			}
		}
		return outcome{Ok: true, Vals: h}
	case "normal":
		var vals []num
		for i := 0; i < j.N; i++ {
			vals = append(vals, num(rand.Normal()))
		}
		return outcome{Ok: true, Vals: vals}
	case "hard":
		p, err := dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: float64(j.Opt.Eps), Delta: float64(j.Opt.Delta), MaxPartitionsContributed: j.Opt.L0, PreThreshold: j.Opt.Pre})
		if err != nil {
			return fail(err)
		}
		h, err := p.GetHardThreshold()
		return one(float64(h), err)
	case "keep": // how often a partition with Args[0] ids is kept out of N
		kept := 0
		for i := 0; i < j.N; i++ {
			p, err := dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: float64(j.Opt.Eps), Delta: float64(j.Opt.Delta), MaxPartitionsContributed: j.Opt.L0, PreThreshold: j.Opt.Pre})
			if err != nil {
				return fail(err)
			}
			if err := p.IncrementBy(k(0)); err != nil {
				return fail(err)
			}
			b, err := p.ShouldKeepPartition()
			if err != nil {
				return fail(err)
			}
			if b {
				kept++
			}
		}
		return one(float64(kept), nil)
	case "addi", "addf": // x, l0, linf, eps, delta; N samples, minus x
		var vals []num
		for i := 0; i < j.N; i++ {
			if j.Fn == "addi" {
				v, err := n.AddNoiseInt64(k(0), k(1), k(2), f(3), f(4))
				if err != nil {
					return fail(err)
				}
				if len(j.Args) > 5 { // modulo the grid
					vals = append(vals, num(v%k(5)), num(v>>20))
				} else {
					vals = append(vals, num(v-k(0)))
				}
			} else {
				v, err := n.AddNoiseFloat64(f(0), k(1), f(2), f(3), f(4))
				if err != nil {
					return fail(err)
				}
				vals = append(vals, num(v))
			}
		}
		return outcome{Ok: true, Vals: vals}
	case "addih": // as addi, counted: pairs value, frequency
		h := map[int64]int{}
		for i := 0; i < j.N; i++ {
			v, err := n.AddNoiseInt64(k(0), k(1), k(2), f(3), f(4))
			if err != nil {
				return fail(err)
			}
			h[v-k(0)]++
		}
		var vals []num
		for v, c := range h {
			vals = append(vals, num(v), num(c))
		}
		return outcome{Ok: true, Vals: vals}
	}
	return fail(fmt.Errorf("driver: unknown function %q", j.Fn))
}

func guarded(j job) (out []outcome) {
	defer func() {
		if r := recover(); r != nil {
			out = []outcome{{Err: fmt.Sprintf("PANIC %v", r)}}
		}
	}()
	switch j.Job {
	case "script":
		return script(j)
	case "accept":
		_, err := build(j.Kind, j.Opt)
		if err != nil {
			return []outcome{fail(err)}
		}
		return []outcome{{Ok: true}}
	}
	return []outcome{function(j)}
}

func main() {
	if !scripted.Installed {
		os.Exit(4)
	}
	var jobs []job
	if err := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20)).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, "driver: bad input:", err)
		os.Exit(5)
	}
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	enc := json.NewEncoder(w)
	for _, j := range jobs {
		if err := enc.Encode(guarded(j)); err != nil {
			fmt.Fprintln(os.Stderr, "driver:", err)
			w.Flush()
			os.Exit(6)
		}
	}
}
