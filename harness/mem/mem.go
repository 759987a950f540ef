// Package mem observes memory: what is reachable from a value, how many heap
// objects an action creates, how much heap a value keeps alive. It knows
// nothing about the types it looks at.
package mem

import (
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

type walker struct {
	seen  map[unsafe.Pointer]uintptr
	stack []reflect.Value
}

// Reach returns the number of heap objects reachable from the value that root
// points to (not counting that value itself) and their total size.
func Reach(root interface{}) (objects int, bytes uintptr) {
	w := &walker{seen: map[unsafe.Pointer]uintptr{}}
	w.stack = append(w.stack, reflect.ValueOf(root).Elem())
	for len(w.stack) > 0 {
		v := w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		w.visit(v)
	}
	for _, n := range w.seen {
		bytes += n
	}
	return len(w.seen), bytes
}

func (w *walker) add(p unsafe.Pointer, n uintptr) bool {
	if p == nil || n == 0 {
		return false
	}
	if old, ok := w.seen[p]; ok {
		if old < n {
			w.seen[p] = n
		}
		return old < n
	}
	w.seen[p] = n
	return true
}

func (w *walker) push(t reflect.Type, p unsafe.Pointer) {
	if hasPointers(t, 0) {
		w.stack = append(w.stack, reflect.NewAt(t, p).Elem())
	}
}

func hasPointers(t reflect.Type, depth int) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return false
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type, depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

// visit sees one addressable value.
func (w *walker) visit(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		p := *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))
		if w.add(p, v.Type().Elem().Size()) {
			w.push(v.Type().Elem(), p)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		p := (*[2]unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))[1]
		switch e.Kind() {
		case reflect.Ptr:
			if w.add(p, e.Type().Elem().Size()) {
				w.push(e.Type().Elem(), p)
			}
		case reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
			w.add(p, 8)
		default:
			if e.Type().Size() == unsafe.Sizeof(p) && pointerShaped(e.Type()) {
				w.add(p, 8)
				return
			}
			if w.add(p, e.Type().Size()) {
				w.push(e.Type(), p)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		es := v.Type().Elem().Size()
		p := *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))
		if w.add(p, uintptr(v.Cap())*es) && hasPointers(v.Type().Elem(), 0) {
			for i := 0; i < v.Len(); i++ {
				w.push(v.Type().Elem(), unsafe.Pointer(uintptr(p)+uintptr(i)*es))
			}
		}
	case reflect.String:
		p := *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))
		w.add(p, uintptr(v.Len()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.stack = append(w.stack, v.Index(i))
		}
	case reflect.Struct:
		t := v.Type()
		if t.PkgPath() == "sync/atomic" && strings.HasPrefix(t.Name(), "Pointer[") {
			for i := 0; i < t.NumField(); i++ {
				if f := t.Field(i); f.Type.Kind() == reflect.Array && f.Type.Elem().Kind() == reflect.Ptr {
					et := f.Type.Elem().Elem()
					for j := 0; j < t.NumField(); j++ {
						if t.Field(j).Type.Kind() == reflect.UnsafePointer {
							p := *(*unsafe.Pointer)(unsafe.Pointer(v.Field(j).UnsafeAddr()))
							if w.add(p, et.Size()) {
								w.push(et, p)
							}
						}
					}
				}
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if hasPointers(v.Field(i).Type(), 0) {
				w.stack = append(w.stack, v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		p := *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))
		if w.add(p, uintptr(v.Len())*(v.Type().Key().Size()+v.Type().Elem().Size())+48) {
			for it := v.MapRange(); it.Next(); {
				for _, x := range []reflect.Value{it.Key(), it.Value()} {
					if hasPointers(x.Type(), 0) {
						n := reflect.New(x.Type()).Elem()
						if x.CanInterface() {
							n.Set(x)
							w.stack = append(w.stack, n)
						}
					}
				}
			}
		}
	}
}

func pointerShaped(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Struct:
		return t.NumField() == 1 && pointerShaped(t.Field(0).Type)
	case reflect.Array:
		return t.Len() == 1 && pointerShaped(t.Elem())
	}
	return false
}

// Mallocs returns how many heap objects f creates: the least of several runs,
// since the runtime itself may allocate now and then. It must be called with
// nothing else running.
func Mallocs(runs int, f func()) uint64 {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	best := ^uint64(0)
	var a, b runtime.MemStats
	for i := 0; i < runs; i++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n < best {
			best = n
		}
	}
	return best
}

// Heap returns the live heap after a full collection.
func Heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// ThreadCPU returns the processor time the calling thread has used.
func ThreadCPU() time.Duration {
	var ts syscall.Timespec
	const threadCPUTime = 3 // CLOCK_THREAD_CPUTIME_ID
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, threadCPUTime, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		panic(e)
	}
	return time.Duration(ts.Nano())
}

// Pointers returns the heap objects reachable from the value that root points
// to, with their sizes.
func Pointers(root interface{}) map[unsafe.Pointer]uintptr {
	w := &walker{seen: map[unsafe.Pointer]uintptr{}}
	w.stack = append(w.stack, reflect.ValueOf(root).Elem())
	for len(w.stack) > 0 {
		v := w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		w.visit(v)
	}
	return w.seen
}
