// Generic driver: reads one JSON request per line, calls the generated
// validators through their public methods and prints what they returned.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type req struct {
	I    int             `json:"i"`
	M    string          `json:"m"`
	B    string          `json:"b"`
	Nils []string        `json:"nils"` // Go names of top-level map/list fields whose message entries become nil
	Nil  bool            `json:"nil"`  // call on a nil pointer
	Reps int             `json:"reps"` // extra concurrent repetitions
	Text bool            `json:"text"` // report Error() texts
	Only string          `json:"only"` // "v" or "a": a single call
	Objs []*req          `json:"objs"` // a history of calls on these messages:
	Ev   [][]interface{} `json:"ev"`   // ["b", caller, object, mode] and ["e", caller]
	Half int64           `json:"half"` // length of half a tick in ns: calls on messages whose Timestamps
	Offs []int64         `json:"offs"` // lie at these half ticks,
	N    int             `json:"n"`    // once per tick, N times
}
type resp struct {
	I     int           `json:"i"`
	None  bool          `json:"none,omitempty"` // no validator generated
	V     interface{}   `json:"v"`
	A     interface{}   `json:"a"`
	Mut   bool          `json:"mut,omitempty"`
	Panic string        `json:"panic,omitempty"`
	Diff  string        `json:"diff,omitempty"`
	Bad   string        `json:"bad,omitempty"`
	Res   []interface{} `json:"res,omitempty"`  // what the calls of a history returned, in order of their ends
	Late  []interface{} `json:"late,omitempty"` // the same errors, looked at after the history
	Slow  bool          `json:"slow,omitempty"` // a call of a clock history did not happen in its half tick
}
type vErr interface {
	Field() string
	Reason() string
	Key() bool
	Cause() error
	ErrorName() string
}
type mErr interface{ AllErrors() []error }

func tree(err error, text bool) interface{} {
	if err == nil {
		return nil
	}
	out := map[string]interface{}{}
	if text {
		out["t"] = err.Error()
	}
	switch e := err.(type) {
	case mErr:
		var l []interface{}
		for _, x := range e.AllErrors() {
			l = append(l, tree(x, text))
		}
		out["m"] = l
		if text {
			out["y"] = reflect.TypeOf(err).Name()
		}
	case vErr:
		out["f"] = e.Field()
		out["n"] = e.ErrorName()
		if text {
			out["r"] = e.Reason()
			out["y"] = reflect.TypeOf(err).Name()
		} else {
			out["r"] = e.Reason() != ""
		}
		if e.Key() {
			out["k"] = true
		}
		if e.Cause() != nil {
			out["c"] = tree(e.Cause(), text)
		}
	default:
		out["x"] = err.Error()
	}
	return out
}

func call(m proto.Message, all, text bool) interface{} {
	var i interface{} = m
	if all {
		return tree(i.(interface{ ValidateAll() error }).ValidateAll(), text)
	}
	return tree(i.(interface{ Validate() error }).Validate(), text)
}

func snapshot(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
	if err != nil {
		return []byte("ERR")
	}
	return b
}

func js(x interface{}) string { b, _ := json.Marshal(x); return string(b) }

func build(r *req) (proto.Message, protoreflect.MessageType, string) {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(r.M))
	if err != nil {
		return nil, nil, err.Error()
	}
	var m proto.Message
	if r.Nil {
		m = mt.Zero().Interface()
	} else {
		m = mt.New().Interface()
		b, err := base64.StdEncoding.DecodeString(r.B)
		if err == nil {
			err = proto.UnmarshalOptions{AllowPartial: true}.Unmarshal(b, m)
		}
		if err != nil {
			return nil, nil, err.Error()
		}
		for _, n := range r.Nils {
			if n[0] == '!' { // a oneof member holding nil: !Oneof!Member
				o := strings.Split(n, "!")
				v := reflect.ValueOf(m).Elem().FieldByName(o[1]).Elem().Elem().FieldByName(o[2])
				v.Set(reflect.Zero(v.Type()))
				continue
			}
			parts := strings.SplitN(n, ":", 2)
			f := reflect.ValueOf(m).Elem().FieldByName(parts[0])
			if f.Kind() == reflect.Map {
				for _, k := range f.MapKeys() {
					if len(parts) == 1 || fmt.Sprint(k.Interface()) == parts[1] {
						f.SetMapIndex(k, reflect.Zero(f.Type().Elem()))
					}
				}
			} else {
				for i := 0; i < f.Len(); i++ {
					if len(parts) == 1 || fmt.Sprint(i) == parts[1] {
						f.Index(i).Set(reflect.Zero(f.Type().Elem()))
					}
				}
			}
		}
	}
	return m, mt, ""
}

type job struct {
	m   proto.Message
	all bool
}
type ret struct {
	err   error
	panic string
}

func caller(in chan job, out chan ret) {
	for j := range in {
		func() {
			var r ret
			defer func() {
				if p := recover(); p != nil {
					r.panic = fmt.Sprint(p)
				}
				out <- r
			}()
			var i interface{} = j.m
			if j.all {
				r.err = i.(interface{ ValidateAll() error }).ValidateAll()
			} else {
				r.err = i.(interface{ Validate() error }).Validate()
			}
		}()
	}
}

func history(r *req, o *resp) {
	var objs []proto.Message
	for _, q := range r.Objs {
		m, _, bad := build(q)
		if bad != "" {
			o.Bad = bad
			return
		}
		objs = append(objs, m)
	}
	ins, outs := map[int]chan job{}, map[int]chan ret{}
	var errs []error
	for _, e := range r.Ev {
		p := int(e[1].(float64))
		if ins[p] == nil {
			ins[p], outs[p] = make(chan job, 1), make(chan ret, 1)
			go caller(ins[p], outs[p])
		}
		if e[0] == "b" {
			ins[p] <- job{objs[int(e[2].(float64))-1], e[3] == "all"}
			continue
		}
		x := <-outs[p]
		if x.panic != "" {
			o.Panic = x.panic
		}
		o.Res = append(o.Res, tree(x.err, r.Text))
		errs = append(errs, x.err)
	}
	for _, c := range ins {
		close(c)
	}
	for _, e := range errs {
		o.Late = append(o.Late, tree(e, r.Text))
	}
	for i, q := range r.Objs {
		pristine, _, _ := build(q)
		if len(q.Nils) == 0 && !bytes.Equal(snapshot(pristine), snapshot(objs[i])) {
			o.Mut = true
		}
	}
}

// fill sets every Timestamp field (plain, list item, map value) of m to t.
func fill(m protoreflect.Message, t time.Time) {
	fs := m.Descriptor().Fields()
	for k := 0; k < fs.Len(); k++ {
		f := fs.Get(k)
		v := func() protoreflect.Value { return protoreflect.ValueOfMessage(timestamppb.New(t).ProtoReflect()) }
		switch {
		case f.IsList():
			m.Mutable(f).List().Append(v())
		case f.IsMap():
			m.Mutable(f).Map().Set(protoreflect.ValueOfString("k").MapKey(), v())
		case f.Message() != nil:
			m.Set(f, v())
		}
	}
}

// clock calls both validators on every message once per tick; Res holds, per tick and message, both results.
func clock(r *req, o *resp) {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(r.M))
	if err != nil {
		o.Bad = err.Error()
		return
	}
	half := time.Duration(r.Half)
	base := time.Now().Add(half)
	var ms []proto.Message
	for _, x := range r.Offs {
		m := mt.New()
		fill(m, base.Add(time.Duration(x)*half))
		ms = append(ms, m.Interface())
	}
	for k := 0; k < r.N; k++ {
		at := base.Add(time.Duration(2*k) * half)
		time.Sleep(time.Until(at))
		for _, m := range ms {
			o.Res = append(o.Res, call(m, false, false), call(m, true, false))
		}
		if time.Since(at) > half/2 {
			o.Slow = true
		}
	}
}

func handle(r *req) (o resp) {
	o.I = r.I
	defer func() {
		if p := recover(); p != nil {
			o.Panic = fmt.Sprint(p)
		}
	}()
	if r.N > 0 {
		clock(r, &o)
		return
	}
	if len(r.Objs) > 0 {
		history(r, &o)
		return
	}
	m, mt, bad := build(r)
	if bad != "" {
		o.Bad = bad
		return
	}
	if _, ok := interface{}(m).(interface{ Validate() error }); !ok {
		_, all := interface{}(m).(interface{ ValidateAll() error })
		o.None = !all
		if all {
			o.Diff = "ValidateAll without Validate"
		}
		return
	}
	// the first call on an untouched value (nothing has been marshalled yet)
	if r.Only != "a" {
		o.V = call(m, false, r.Text)
	}
	if r.Only != "v" {
		o.A = call(m, true, r.Text)
	}
	if len(r.Nils) == 0 && !r.Nil {
		pristine := mt.New().Interface()
		b, _ := base64.StdEncoding.DecodeString(r.B)
		proto.UnmarshalOptions{AllowPartial: true}.Unmarshal(b, pristine)
		o.Mut = !bytes.Equal(snapshot(pristine), snapshot(m))
	}
	if r.Reps > 0 {
		v0, a0 := js(o.V), js(o.A)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for k := 0; k < r.Reps; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						mu.Lock()
						o.Panic = fmt.Sprint(p)
						mu.Unlock()
					}
				}()
				got, want := "", ""
				if k%2 == 0 {
					got, want = js(call(m, true, r.Text)), a0
				} else {
					got, want = js(call(m, false, r.Text)), v0
				}
				if got != want {
					mu.Lock()
					o.Diff = got + " vs first call " + want
					mu.Unlock()
				}
			}(k)
		}
		wg.Wait()
	}
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var reqs []*req
	for sc.Scan() {
		r := &req{}
		if err := json.Unmarshal(sc.Bytes(), r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		reqs = append(reqs, r)
	}
	if os.Getenv("DRIVER_SEQ") != "" {
		for _, r := range reqs {
			b, _ := json.Marshal(handle(r))
			os.Stdout.Write(append(b, '\n'))
		}
		return
	}
	outs := make([]string, len(reqs))
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(reqs); i += n {
				o := handle(reqs[i])
				b, _ := json.Marshal(o)
				outs[i] = string(b)
			}
		}(w)
	}
	wg.Wait()
	bw := bufio.NewWriterSize(os.Stdout, 1<<20)
	for _, s := range outs {
		bw.WriteString(s)
		bw.WriteByte('\n')
	}
	bw.Flush()
}
