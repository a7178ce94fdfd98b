package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"math/rand"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

// Structural mutations of JSON messages.

type slot struct {
	obj map[string]interface{}
	arr []interface{}
	key string
	i   int
}

func (s slot) get() interface{} {
	if s.obj != nil {
		return s.obj[s.key]
	}
	return s.arr[s.i]
}
func (s slot) set(v interface{}) {
	if s.obj != nil {
		s.obj[s.key] = v
	} else {
		s.arr[s.i] = v
	}
}

func parseTree(raw []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

func isBytes(a []interface{}) bool {
	if len(a) < 8 {
		return false
	}
	_, ok := a[0].(json.Number)
	return ok
}

// slots lists every place of the tree in a fixed order.
func slots(v interface{}, out []slot, deep bool) []slot {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, slot{obj: x, key: k})
			out = slots(x[k], out, deep)
		}
	case []interface{}:
		if isBytes(x) && !deep {
			return out
		}
		for i := range x {
			out = append(out, slot{arr: x, i: i})
			out = slots(x[i], out, deep)
		}
	}
	return out
}

func cloneTree(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	return parseTree(b)
}

// findKey collects values stored under key.
func findKey(v interface{}, key string, out []interface{}) []interface{} {
	for _, s := range slots(v, nil, false) {
		if s.obj != nil && s.key == key {
			out = append(out, s.get())
		}
	}
	return out
}

var odd = []interface{}{nil, "", "x", json.Number("0"), json.Number("-1"), json.Number("1e30"), json.Number("18446744073709551615"), json.Number("4294967295"), json.Number("257"), json.Number("1.5"),
	true, false, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, []interface{}{map[string]interface{}{}}, []interface{}{nil, nil}, map[string]interface{}{"": nil}, "AAAA", "AA=="}

// mutateJSON applies one mutation; pool holds other messages to borrow from.
func mutateJSON(raw []byte, rng *rand.Rand, pool [][]byte) []byte {
	t := parseTree(raw)
	sl := slots(t, nil, rng.Intn(5) == 0)
	if len(sl) == 0 {
		return raw
	}
	s := sl[rng.Intn(len(sl))]
	mutateSlot(s, t, rng, pool)
	b, err := json.Marshal(t)
	if err != nil {
		return raw
	}
	return b
}

func mutateSlot(s slot, t interface{}, rng *rand.Rand, pool [][]byte) {
	v := s.get()
	switch rng.Intn(6) {
	case 0: // something else altogether
		s.set(cloneTree(odd[rng.Intn(len(odd))]))
		return
	case 1: // gone
		if s.obj != nil {
			delete(s.obj, s.key)
			return
		}
		s.set(nil)
		return
	case 2: // the same part of another message
		if s.obj != nil && len(pool) > 0 {
			if f := findKey(parseTree(pool[rng.Intn(len(pool))]), s.key, nil); len(f) > 0 {
				s.set(cloneTree(f[rng.Intn(len(f))]))
				return
			}
		}
	}
	switch x := v.(type) {
	case string:
		b, err := base64.StdEncoding.DecodeString(x)
		if err != nil || rng.Intn(12) == 0 {
			s.set([]interface{}{"!", x + "A", x + "=", "\u0000", " " + x}[rng.Intn(5)])
			return
		}
		switch k := rng.Intn(7); {
		case k < 2 && len(b) > 0:
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		case k == 2 && len(b) > 0:
			b = b[:rng.Intn(len(b))]
		case k == 3:
			b = append(b, byte(rng.Intn(256)))
		case k == 4 && len(b) > 0:
			b = b[1:]
		case k == 5:
			b = append([]byte{byte(rng.Intn(256))}, b...)
		default:
			// another string of the message
			var ss []string
			for _, q := range slots(t, nil, false) {
				if z, ok := q.get().(string); ok {
					ss = append(ss, z)
				}
			}
			s.set(ss[rng.Intn(len(ss))])
			return
		}
		s.set(base64.StdEncoding.EncodeToString(b))
	case json.Number:
		n, _ := x.Int64()
		c := []int64{n + 1, n - 1, 0, 1, n + 2, n * 256, 255, 256, 100, 101, 102, 103, 104, 105, 106, 200, 208, -1, 1 << 40}[rng.Intn(19)]
		b, _ := json.Marshal(c)
		s.set(json.Number(string(b)))
	case []interface{}:
		y := append([]interface{}(nil), x...)
		switch k := rng.Intn(7); {
		case k == 0 && len(y) > 0:
			y = y[:len(y)-1]
		case k == 1 && len(y) > 0:
			y = y[1:]
		case k == 2 && len(y) > 0:
			y = append(y, cloneTree(y[rng.Intn(len(y))]))
		case k == 3:
			y = append(y, cloneTree(odd[rng.Intn(len(odd))]))
		case k == 4:
			for i, j := 0, len(y)-1; i < j; i, j = i+1, j-1 {
				y[i], y[j] = y[j], y[i]
			}
		case k == 5:
			y = append([]interface{}{cloneTree(odd[rng.Intn(len(odd))])}, y...)
		default:
			y = []interface{}{}
		}
		s.set(y)
	case map[string]interface{}:
		sub := slots(x, nil, false)
		if len(sub) > 0 {
			mutateSlot(sub[rng.Intn(len(sub))], t, rng, pool)
			return
		}
		s.set(nil)
	default:
		s.set(cloneTree(odd[rng.Intn(len(odd))]))
	}
}

// mutateBytes damages a message below the JSON level.
func mutateBytes(raw []byte, rng *rand.Rand, pool [][]byte) []byte {
	b := append([]byte(nil), raw...)
	switch rng.Intn(11) {
	case 0, 1:
		if len(b) > 0 {
			b = b[:rng.Intn(len(b))]
		}
	case 2:
		for i := 1 + rng.Intn(4); i > 0 && len(b) > 0; i-- {
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		}
	case 3:
		b = make([]byte, rng.Intn(200))
		rng.Read(b)
	case 4:
		b = append(b, b...)
	case 5:
		b = nil
	case 6:
		b = [][]byte{[]byte("null"), []byte("{}"), []byte("[]"), []byte("0"), []byte(`""`), []byte(`{"Error":100}`), []byte(`{"Error":101,"DirectoryResponse":null}`), []byte(`{"Error":100,"DirectoryResponse":{}}`),
			[]byte(`{"Error":100,"DirectoryResponse":[]}`), []byte(`{"Error":104}`), []byte(`{"Error":0}`), []byte(`{"Error":-1}`), []byte(`{"Error":102}`), []byte(`{"Error":103}`), []byte(`{"Error":105}`), []byte(`{"Error":106}`), []byte(`{"Error":200}`), []byte(`{"Error":"x"}`),
			[]byte(`{"Error":100,"DirectoryResponse":{"AP":[null],"STR":[null],"TB":null}}`), []byte(`{"Error":100,"DirectoryResponse":{"AP":[{}],"STR":[{}],"TB":{}}}`), []byte(`{"Error":100,"DirectoryResponse":{"AP":null,"STR":null}}`),
			[]byte(`{"Error":100,"DirectoryResponse":{"STR":[]}}`), []byte(`{"Error":100,"DirectoryResponse":{"STR":[null]}}`), []byte(`{"Error":100,"DirectoryResponse":{"STR":[{"Policies":{}}]}}`), []byte(`{"Error":100,"DirectoryResponse":"x"}`), []byte(`{"DirectoryResponse":{}}`)}[rng.Intn(26)]
	case 7:
		if len(b) > 2 {
			i, j := rng.Intn(len(b)), rng.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b[:i:i], b[j:]...)
		}
	case 8:
		b = bytes.Repeat([]byte("["), rng.Intn(20000))
	case 9:
		b = append(b, ' ', '\n')
	case 10:
		if len(pool) > 0 {
			p := pool[rng.Intn(len(pool))]
			i := rng.Intn(len(b) + 1)
			j := rng.Intn(len(p) + 1)
			b = append(b[:i:i], p[j:]...)
		}
	}
	return b
}
