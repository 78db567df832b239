package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"

	"pgregory.net/rapid"
)

// A Result is what checking one case produced.
type Result struct {
	Fail       string   `json:",omitempty"` // non-empty: the property is violated
	Nontrivial bool     `json:",omitempty"` // by the property's rule
	Invalid    bool     `json:",omitempty"` // outside the property's domain, not counted
	Labels     []string `json:",omitempty"`
	Key        string   `json:",omitempty"` // identity for counting distinct cases (default: the case)
}

func (r *Result) label(format string, args ...any) {
	r.Labels = append(r.Labels, fmt.Sprintf(format, args...))
}

func fail(format string, args ...any) Result {
	return Result{Fail: fmt.Sprintf(format, args...), Nontrivial: true}
}

// opts are a suite's budgets and execution requirements.
type opts struct {
	quick, thorough int  // number of cases, over all shards
	recycle         int  // cases per worker process (default 200)
	shards          int  // 0: all cores
	netns           bool // worker wants a private loopback network
	race            bool // use the race-detector build of the harness
	quickOff        bool // thorough only
	gcOff           bool // run workers without garbage collection: index.Create allocates 200 MB of zero pages that are cheap only when fresh
	noDir           bool // cases need no scratch directory
	cpuLimit        int  // CPU seconds per case before it counts as non-terminating (default 60)
}

type suite struct {
	prop, name string
	opts
	gen    func(*rapid.T) any
	fixed  []any
	decode func([]byte) (any, error)
	check  func(*Env, any) Result
}

var suites []*suite

// rules holds, per property, the rule by which cases are made and counted as non-trivial.
var rules = map[string]string{}

// assumptions, per property.
var assumptions = map[string][]string{}

func reg[T any](prop, name string, o opts, gen func(*rapid.T) T, check func(*Env, T) Result, fixed ...T) {
	if o.recycle == 0 {
		o.recycle = 200
	}
	if o.cpuLimit == 0 {
		o.cpuLimit = 60
	}
	s := &suite{prop: prop, name: name, opts: o}
	if gen != nil {
		s.gen = func(t *rapid.T) any { return gen(t) }
	}
	for _, f := range fixed {
		s.fixed = append(s.fixed, f)
	}
	s.decode = func(b []byte) (any, error) {
		var v T
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		err := d.Decode(&v)
		return v, err
	}
	s.check = func(e *Env, c any) Result { return check(e, c.(T)) }
	suites = append(suites, s)
}

func findSuite(prop, name string) *suite {
	for _, s := range suites {
		if s.prop == prop && s.name == name {
			return s
		}
	}
	return nil
}

func propSuites(prop string) []*suite {
	var l []*suite
	for _, s := range suites {
		if s.prop == prop {
			l = append(l, s)
		}
	}
	return l
}

func allProps() []string {
	m := map[string]bool{}
	for _, s := range suites {
		m[s.prop] = true
	}
	var l []string
	for p := range m {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// B is an arbitrary byte string with a readable, lossless JSON form.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

func (b *B) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return fmt.Errorf("bad byte string %q: %v", s, err)
	}
	*b = B(u)
	return nil
}

// encodeCase is json.Marshal without HTML escaping.
func encodeCase(v any) []byte {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return bytes.TrimSpace(buf.Bytes())
}
