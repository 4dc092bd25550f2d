// Package hmet is a stand-in for prometheus: vectors keep their series in a list.
// Native runs use the real one and gather the registry.
package hmet

import (
	"time"

	"github.com/cybozu-go/moco/pkg/metrics"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/prometheus/client_golang/prometheus"
)

type vec struct {
	name   string
	labels []string
	v      *prometheus.MetricVec
}

type series struct {
	v    *vec
	lvs  []string
	val  float64
	n    int // increments or observations
	gone bool
}

var (
	reg  *prometheus.Registry
	vecs []*vec
	all  []*series
)

// Reset registers the metrics anew.
func Reset() {
	vecs, all = nil, nil
	reg = prometheus.NewRegistry()
	metrics.Register(reg)
}

// Get returns whether there is a series of the metric for the cluster, and its
// value (the number of observations of a histogram).
func Get(metric, ns, name string) (bool, float64) {
	if vf.Symbolic() {
		for _, s := range all {
			if !s.gone && s.v.name == metric && s.is(ns, name) {
				if s.n > 0 {
					return true, float64(s.n)
				}
				return true, s.val
			}
		}
		return false, 0
	}
	mfs, err := reg.Gather()
	if err != nil {
		panic(err)
	}
	for _, mf := range mfs {
		if mf.GetName() != metric {
			continue
		}
		for _, m := range mf.Metric {
			lns, ln := "", ""
			for _, l := range m.Label {
				switch l.GetName() {
				case "name":
					ln = l.GetValue()
				case "namespace":
					lns = l.GetValue()
				}
			}
			if lns != ns || ln != name {
				continue
			}
			switch {
			case m.Gauge != nil:
				return true, m.Gauge.GetValue()
			case m.Counter != nil:
				return true, m.Counter.GetValue()
			case m.Histogram != nil:
				return true, float64(m.Histogram.GetSampleCount())
			}
		}
	}
	return false, 0
}

// Names lists the vectors that have a series of the cluster.
func Names(ns, name string) []string {
	var r []string
	if vf.Symbolic() {
		for _, s := range all {
			if !s.gone && s.is(ns, name) {
				r = append(r, s.v.name)
			}
		}
		return r
	}
	mfs, err := reg.Gather()
	if err != nil {
		panic(err)
	}
	for _, mf := range mfs {
		if ok, _ := Get(mf.GetName(), ns, name); ok {
			r = append(r, mf.GetName())
		}
	}
	return r
}

func (s *series) is(ns, name string) bool {
	lns, ln := "", ""
	for i, l := range s.v.labels {
		switch l {
		case "name":
			ln = s.lvs[i]
		case "namespace":
			lns = s.lvs[i]
		}
	}
	return lns == ns && ln == name
}

func mk(o prometheus.Opts, labels []string) *prometheus.MetricVec {
	v := &vec{name: o.Namespace + "_" + o.Subsystem + "_" + o.Name, labels: labels, v: &prometheus.MetricVec{}}
	vecs = append(vecs, v)
	return v.v
}

func NewGaugeVec(o prometheus.GaugeOpts, labels []string) *prometheus.GaugeVec {
	return &prometheus.GaugeVec{MetricVec: mk(prometheus.Opts(o), labels)}
}

func NewCounterVec(o prometheus.CounterOpts, labels []string) *prometheus.CounterVec {
	return &prometheus.CounterVec{MetricVec: mk(prometheus.Opts(o), labels)}
}

func NewHistogramVec(o prometheus.HistogramOpts, labels []string) *prometheus.HistogramVec {
	return &prometheus.HistogramVec{MetricVec: mk(prometheus.Opts{Namespace: o.Namespace, Subsystem: o.Subsystem, Name: o.Name}, labels)}
}

func find(mv *prometheus.MetricVec, lvs []string, create bool) *series {
	for _, v := range vecs {
		if v.v != mv {
			continue
		}
		if len(lvs) != len(v.labels) {
			panic("inconsistent label cardinality")
		}
	next:
		for _, s := range all {
			if s.v != v || s.gone {
				continue
			}
			for i := range lvs {
				if lvs[i] != s.lvs[i] {
					continue next
				}
			}
			return s
		}
		if !create {
			return nil
		}
		s := &series{v: v, lvs: append([]string{}, lvs...)}
		all = append(all, s)
		return s
	}
	panic("unknown vector")
}

func values(mv *prometheus.MetricVec, l prometheus.Labels) []string {
	for _, v := range vecs {
		if v.v == mv {
			var r []string
			for _, n := range v.labels {
				x, ok := l[n]
				if !ok {
					panic("label " + n + " missing")
				}
				r = append(r, x)
			}
			return r
		}
	}
	panic("unknown vector")
}

func DeleteLabelValues(v *prometheus.MetricVec, lvs ...string) bool {
	if s := find(v, lvs, false); s != nil {
		s.gone = true
		return true
	}
	return false
}

func Delete(v *prometheus.MetricVec, l prometheus.Labels) bool {
	return DeleteLabelValues(v, values(v, l)...)
}

func DeletePartialMatch(v *prometheus.MetricVec, l prometheus.Labels) int {
	n := 0
	for _, s := range all {
		if s.gone || s.v.v != v {
			continue
		}
		found := 0
		for i, k := range s.v.labels {
			if x, ok := l[k]; ok && x == s.lvs[i] {
				found++
			}
		}
		if found == len(l) {
			s.gone = true
			n++
		}
	}
	return n
}

type gauge struct {
	prometheus.Gauge
	s *series
}

func (g *gauge) Set(f float64)     { g.s.val = f }
func (g *gauge) Inc()              { g.s.val++ }
func (g *gauge) Dec()              { g.s.val-- }
func (g *gauge) Add(f float64)     { g.s.val += f }
func (g *gauge) Sub(f float64)     { g.s.val -= f }
func (g *gauge) SetToCurrentTime() { g.s.val = float64(time.Now().Unix()) }

type counter struct {
	prometheus.Counter
	s *series
}

func (c *counter) Inc()          { c.s.val++ }
func (c *counter) Add(f float64) { c.s.val += f }

type observer struct {
	prometheus.Observer
	s *series
}

func (o *observer) Observe(float64) { o.s.n++ }

func GaugeWithLabelValues(v *prometheus.GaugeVec, lvs ...string) prometheus.Gauge {
	return &gauge{s: find(v.MetricVec, lvs, true)}
}
func GaugeWith(v *prometheus.GaugeVec, l prometheus.Labels) prometheus.Gauge {
	return GaugeWithLabelValues(v, values(v.MetricVec, l)...)
}
func CounterWithLabelValues(v *prometheus.CounterVec, lvs ...string) prometheus.Counter {
	return &counter{s: find(v.MetricVec, lvs, true)}
}
func CounterWith(v *prometheus.CounterVec, l prometheus.Labels) prometheus.Counter {
	return CounterWithLabelValues(v, values(v.MetricVec, l)...)
}
func HistogramWithLabelValues(v *prometheus.HistogramVec, lvs ...string) prometheus.Observer {
	return &observer{s: find(v.MetricVec, lvs, true)}
}
func HistogramWith(v *prometheus.HistogramVec, l prometheus.Labels) prometheus.Observer {
	return HistogramWithLabelValues(v, values(v.MetricVec, l)...)
}
