package sim

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
	"time"
)

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the two-valued form of `<-ch`.
func Recv2[T any](c <-chan T) (T, bool) {
	Point()
	t := Self()
	if t == nil {
		v, ok := <-c
		return v, ok
	}
	select {
	case v, ok := <-c:
		return v, ok
	default:
	}
	if t.unwinding {
		var zero T
		return zero, false
	}
	t.why = "channel receive"
	select {
	case v, ok := <-c:
		t.why = ""
		Point()
		return v, ok
	case <-t.killed:
		t.checkKilled()
		panic("unreachable")
	}
}

// Send is `ch <- v`, as Send(ch)(v).
func Send[T any](c chan<- T) func(T) { return func(v T) { send(c, v) } }

func send[T any](c chan<- T, v T) {
	Point()
	t := Self()
	if t == nil {
		c <- v
		return
	}
	if t.unwinding {
		return
	}
	select {
	case c <- v:
		return
	default:
	}
	t.why = "channel send"
	select {
	case c <- v:
		t.why = ""
		Point()
	case <-t.killed:
		t.checkKilled()
	}
}

// ChanRange is `range ch`.
func ChanRange[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case is one case of a select statement.
type Case struct {
	dir reflect.SelectDir
	ch  reflect.Value
	val reflect.Value
}

// R is a receive case.
func R[T any](ch <-chan T) Case { return Case{dir: reflect.SelectRecv, ch: reflect.ValueOf(ch)} }

// S is a send case, as S(ch)(v).
func S[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{dir: reflect.SelectSend, ch: reflect.ValueOf(ch), val: reflect.ValueOf(&v).Elem()}
	}
}

func (c Case) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: c.dir, Chan: c.ch, Send: c.val}
}

// Select is the select statement; the choice among several ready cases is made
// by the scheduler. It returns -1 for the default case.
func Select(hasDefault bool, cases ...Case) (int, reflect.Value, bool) {
	Point()
	t := Self()
	var order []int
	if t != nil && t.unwinding {
		if hasDefault {
			return -1, reflect.Value{}, false
		}
		t.checkKilled()
	}
	if t != nil {
		order = t.w.Perm(len(cases))
	} else {
		order = make([]int, len(cases))
		for i := range order {
			order[i] = i
		}
	}
	for _, i := range order {
		chosen, v, ok := reflect.Select([]reflect.SelectCase{cases[i].rc(), {Dir: reflect.SelectDefault}})
		if chosen == 0 {
			return i, v, ok
		}
	}
	if hasDefault {
		return -1, reflect.Value{}, false
	}
	rcs := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rcs = append(rcs, c.rc())
	}
	if t != nil {
		t.why = "select"
		rcs = append(rcs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(t.killed)})
	}
	i, v, ok := reflect.Select(rcs)
	if t != nil {
		t.why = ""
		if i == len(cases) {
			t.checkKilled()
		}
		Point()
	}
	return i, v, ok
}

// V converts the value received by Select.
func V[T any](_ <-chan T, v reflect.Value) T {
	var zero T
	if !v.IsValid() {
		return zero
	}
	res, _ := v.Interface().(T)
	return res
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	t := Self()
	if t == nil {
		time.Sleep(d)
		return
	}
	if t.unwinding {
		return
	}
	t.why = "sleep"
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-t.killed:
		tm.Stop()
	}
	t.why = ""
	t.checkKilled()
	Point()
}

// SortedKeys returns the keys of a map in a deterministic order.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return keys
	case []int:
		slices.Sort(ks)
		return keys
	}
	strs := make(map[K]string, len(keys))
	for _, k := range keys {
		strs[k] = keyString(k)
	}
	slices.SortStableFunc(keys, func(a, b K) int { return cmp.Compare(strs[a], strs[b]) })
	return keys
}

// StableKey can be implemented by map key types that have no deterministic
// textual representation.
func keyString(k any) string {
	rv := reflect.ValueOf(k)
	if rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
		if s, ok := k.(fmt.Stringer); ok {
			return s.String()
		}
	}
	if rv.Kind() == reflect.Pointer {
		// Pointers have no stable textual representation; order by pointee.
		return fmt.Sprintf("%+v", rv.Elem())
	}
	return fmt.Sprintf("%T:%+v", k, k)
}

// MapRange iterates over a map in an order decided by the scheduler.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		w := active.Load()
		if w == nil || Self() == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := SortedKeys(m)
		order := w.Perm(len(keys))
		for _, i := range order {
			v, ok := m[keys[i]]
			if !ok {
				continue // removed during the iteration
			}
			if !yield(keys[i], v) {
				return
			}
		}
	}
}
