// Replays programs (JSON, one per line on stdin) against the real library and
// prints the resulting values.  Everything is called through reflection.
package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

type step struct {
	M string   `json:"m"`
	A []string `json:"a"`
	R []string `json:"r"`
	// times to repeat it (0: once)
	N int `json:"n"`
}

type prog struct {
	Vars  [][]interface{} `json:"vars"`
	Steps []step          `json:"steps"`
	Out   []string        `json:"out"`
	// report the package variables that the steps changed
	Globals bool `json:"globals"`
	// run the steps in two goroutines that share everything but these registers
	Par []string `json:"par"`
	// compare the trace of the last step with earlier ones of the same key and outcome
	CT string `json:"ct"`
}

var types = map[string]reflect.Type{
	"FE": reflect.TypeOf(ed.FieldElement{}), "EP": reflect.TypeOf(ed.ExtendedPoint{}),
	"CP": reflect.TypeOf(ed.CompletedPoint{}), "PP": reflect.TypeOf(ed.ProjectivePoint{}),
	"NP": reflect.TypeOf(ed.NielsPoint{}), "JP": reflect.TypeOf(ed.JacobiPoint{}),
	"ET": reflect.TypeOf(ed.ScalarMultTable{}), "T": reflect.TypeOf(ristretto.ScalarMultTable{}),
	"P": reflect.TypeOf(ristretto.Point{}), "S": reflect.TypeOf(ristretto.Scalar{}),
	"b16": reflect.TypeOf([16]byte{}), "b32": reflect.TypeOf([32]byte{}), "b64": reflect.TypeOf([64]byte{}),
	"bytes": reflect.TypeOf([]byte{}), "i32": reflect.TypeOf(int32(0)), "u64": reflect.TypeOf(uint64(0)),
	"big": reflect.TypeOf(big.Int{}), "fe8": reflect.TypeOf([8]ed.FieldElement{}), "jp4": reflect.TypeOf([4]ed.JacobiPoint{}),
	"w51": reflect.TypeOf([51]int8{}), "w64": reflect.TypeOf([64]int8{}), "w256": reflect.TypeOf([256]int8{}),
}

var funcs = map[string]reflect.Value{}
var globals = map[string]interface{}{}

func init() {
	for n, g := range ed.VerifVars {
		globals[n] = g
	}
	for n, g := range ristretto.VerifVars {
		globals["root/"+n] = g
	}
	for n, f := range ed.VerifFuncs {
		funcs[n] = reflect.ValueOf(f)
	}
	for n, f := range ristretto.VerifFuncs {
		funcs[n] = reflect.ValueOf(f)
	}
	// drv.rand: makes the given bytes the system's random source (followed by zeroes)
	// drv.randfail: a random source that fails after the given bytes
	funcs["drv.randfail"] = reflect.ValueOf(func(b []byte) { rand.Reader = bytes.NewReader(append([]byte{}, b...)) })
	funcs["drv.rand"] = reflect.ValueOf(func(b []byte) { rand.Reader = bytes.NewReader(append(append([]byte{}, b...), make([]byte, 1024)...)) })
}

func setval(v reflect.Value, x interface{}) {
	if x == nil {
		return
	}
	switch v.Type() {
	case types["big"]:
		v.Addr().Interface().(*big.Int).SetString(x.(string), 10)
		return
	case types["bytes"]:
		b, err := hex.DecodeString(x.(string))
		if err != nil {
			panic(err)
		}
		v.SetBytes(b)
		return
	}
	switch v.Kind() {
	case reflect.Array:
		if s, ok := x.(string); ok {
			b, err := hex.DecodeString(s)
			if err != nil || len(b) != v.Len() {
				panic("bad hex")
			}
			for i := range b {
				v.Index(i).SetUint(uint64(b[i]))
			}
			return
		}
		for i, y := range x.([]interface{}) {
			setval(v.Index(i), y)
		}
	case reflect.Struct:
		for i, y := range x.([]interface{}) {
			setval(v.Field(i), y)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(fmt.Sprint(x), 10, 64)
		if err != nil {
			panic(err)
		}
		v.SetUint(n)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(fmt.Sprint(x), 10, 64)
		if err != nil {
			panic(err)
		}
		v.SetInt(n)
	default:
		panic("cannot set " + v.Type().String())
	}
}

// the register file: name -> pointer to value
type regs map[string]reflect.Value

func (r regs) addr(n string) reflect.Value {
	parts := strings.Split(n, ".")
	var v reflect.Value
	if parts[0] == "$base" {
		v = reflect.ValueOf(&ed.BaseScalarMultTable)
	} else if strings.HasPrefix(parts[0], "$") {
		v = reflect.ValueOf(globals[parts[0][1:]])
	} else {
		v = r[parts[0]]
	}
	if !v.IsValid() {
		panic(errors.New("verif: no register " + n))
	}
	for _, p := range parts[1:] {
		e := v.Elem()
		if i, err := strconv.Atoi(p); err == nil {
			v = e.Index(i).Addr()
		} else {
			v = e.FieldByName(p).Addr()
		}
	}
	return v
}

func (r regs) arg(n string, t reflect.Type) reflect.Value {
	if n == "nil" {
		return reflect.Zero(t)
	}
	if n[0] == '#' {
		v := reflect.New(t).Elem()
		setval(v, n[1:])
		return v
	}
	p := r.addr(n)
	if p.Type() == t {
		return p
	}
	if t.Kind() == reflect.Ptr && p.Type().ConvertibleTo(t) {
		return p.Convert(t)
	}
	e := p.Elem()
	if e.Type() == t {
		return e
	}
	if e.Type().ConvertibleTo(t) {
		return e.Convert(t)
	}
	if t.Kind() == reflect.Slice && e.Kind() == reflect.Array && e.Type().Elem() == t.Elem() {
		return e.Slice(0, e.Len())
	}
	panic(errors.New("verif: argument " + n + " is a " + p.Type().String() + ", want " + t.String()))
}

func dump(v reflect.Value) interface{} {
	switch v.Type() {
	case types["big"]:
		return v.Addr().Interface().(*big.Int).String()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		if e, ok := v.Interface().(error); ok {
			return "error: " + e.Error()
		}
		return dump(v.Elem())
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return hex.EncodeToString(b)
		}
		ret := make([]interface{}, v.Len())
		for i := range ret {
			ret[i] = dump(v.Index(i))
		}
		return ret
	case reflect.Struct:
		ret := make([]interface{}, v.NumField())
		for i := range ret {
			ret[i] = dump(v.Field(i))
		}
		return ret
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return "str:" + v.String()
	}
	return "?" + v.Type().String()
}

func call(r regs, s step) {
	var f reflect.Value
	f, ok := funcs[s.M]
	if !ok {
		panic(errors.New("verif: no function " + s.M))
	}
	t := f.Type()
	if t.NumIn() != len(s.A) {
		panic(errors.New("verif: argument count of " + s.M))
	}
	args := make([]reflect.Value, t.NumIn())
	for i := range args {
		args[i] = r.arg(s.A[i], t.In(i))
	}
	out := f.Call(args)
	for i, n := range s.R {
		if i < len(out) && n != "" {
			p := reflect.New(out[i].Type())
			p.Elem().Set(out[i])
			r[n] = p
		}
	}
}

// a copy of v, with the memory behind slices and pointers
func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			reflect.Copy(c, v)
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type() == reflect.TypeOf(&big.Int{}) {
			c.Set(reflect.ValueOf(new(big.Int).Set(v.Interface().(*big.Int))))
		}
	}
	return c
}

func run(line []byte) (ret map[string]interface{}) {
	ret = map[string]interface{}{}
	defer func() {
		if e := recover(); e != nil {
			if err, ok := e.(error); ok && strings.HasPrefix(err.Error(), "verif: ") {
				ret["fail"] = err.Error()
			} else {
				ret["panic"] = fmt.Sprint(e)
			}
		}
	}()
	var p prog
	if err := json.Unmarshal(line, &p); err != nil {
		ret["fail"] = err.Error()
		return
	}
	r := regs{}
	for _, v := range p.Vars {
		t, ok := types[v[1].(string)]
		if !ok {
			panic(errors.New("verif: type " + v[1].(string)))
		}
		q := reflect.New(t)
		if len(v) > 2 {
			setval(q.Elem(), v[2])
		}
		r[v[0].(string)] = q
	}
	var before map[string]reflect.Value
	if p.Globals {
		before = map[string]reflect.Value{}
		for n, g := range globals {
			before[n] = clone(reflect.ValueOf(g).Elem())
		}
	}
	if p.Par != nil {
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			q := regs{}
			for n, v := range r {
				q[n] = v
			}
			for _, n := range p.Par {
				if v, ok := r[n]; ok {
					c := reflect.New(v.Type().Elem())
					c.Elem().Set(clone(v.Elem()))
					q[n] = c
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range p.Steps {
					call(q, s)
				}
			}()
		}
		wg.Wait()
	} else {
		for i, s := range p.Steps {
			if p.CT != "" && i == len(p.Steps)-1 {
				traceStart()
			}
			call(r, s)
			for k := 1; k < s.N; k++ {
				call(r, s)
			}
		}
		if p.CT != "" {
			defer func() {
				k, _ := json.Marshal(ret["out"])
				if l := traceCompare(p.CT + string(k)); l != "" {
					ret["leak"] = l
				}
			}()
			traceStop()
		}
	}
	if p.Globals {
		ch := []string{}
		for n, g := range globals {
			if !reflect.DeepEqual(before[n].Interface(), reflect.ValueOf(g).Elem().Interface()) {
				ch = append(ch, n)
			}
		}
		sort.Strings(ch)
		ret["globals"] = ch
	}
	out := map[string]interface{}{}
	for _, n := range p.Out {
		if strings.HasSuffix(n, "?") {
			out[n] = dump(r.addr(n[:len(n)-1]).Elem()) == nil
			continue
		}
		out[n] = dump(r.addr(n).Elem())
	}
	ret["out"] = out
	return
}

// set by the tracing build
var traceStart, traceStop = func() {}, func() {}
var traceCompare = func(key string) string { return "" }

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			b, _ := json.Marshal(run(line))
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}
