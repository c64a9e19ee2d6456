// Executes a plan on the Go package.
package main

/*
#cgo linux,amd64 LDFLAGS: ./build/x86_64-unknown-linux-gnu/libc_eth_kzg.a -lm
long shim_contexts(void);
long shim_messages(void);
long shim_entered(void);
int shim_wrong(void);
void shim_hold(int on);
*/
import "C"

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

func digest(l [][]byte) string {
	h := sha256.New()
	le := func(n int) {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(n))
		h.Write(b[:])
	}
	le(len(l))
	for _, e := range l {
		le(len(e))
		h.Write(e)
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

func call(k *kzg.DASContext, blob []byte) string {
	c, err := k.BlobToKZGCommitment(blob)
	return show(c, err)
}

// The last results: they belong to the caller, so that they stay as they are while more calls are
// made, and so that writing to them does not touch anything else.
type result struct {
	bytes []byte
	was   []byte
}

var (
	results []result
	keeping sync.Mutex
	current string
)

func keep(c []byte) {
	keeping.Lock()
	defer keeping.Unlock()
	results = append(results, result{c, append([]byte{}, c...)})
	if len(results) > 6 {
		forget()
	}
}

func forget() {
	r := results[0]
	results = results[1:]
	if !bytes.Equal(r.bytes, r.was) {
		say("X %s a commitment returned by an earlier call changed", current)
	}
	for i := range r.bytes[:cap(r.bytes)] {
		r.bytes[:cap(r.bytes)][i] ^= 0xa5
	}
}

func show(c []byte, err error) string {
	if err != nil {
		if c != nil {
			return "error-with-a-commitment"
		}
		if err.Error() == "" {
			return "error-without-text"
		}
		return "err"
	}
	d := "ok:" + digest([][]byte{c})
	keep(c)
	return d
}

func say(f string, a ...any) { os.Stdout.WriteString(fmt.Sprintf(f, a...) + "\n") }

// during runs f while garbage is collected inside the first call into the library: the call is
// held there until the collector has run and finalizers had their turn.
func during(f func()) {
	at := C.shim_entered()
	C.shim_hold(1)
	var wg sync.WaitGroup
	wg.Add(1)
	var over atomic.Bool
	go func() {
		defer wg.Done()
		for C.shim_entered() == at && !over.Load() {
			time.Sleep(100 * time.Microsecond)
		}
		collect()
		C.shim_hold(0)
	}()
	f()
	over.Store(true)
	wg.Wait()
}

func collect() {
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
}

//go:noinline
func lastUse(blob []byte, during_ bool) (r string) {
	k := kzg.NewProverContext()
	// the context is not used after this call
	if during_ {
		during(func() { r = show(k.BlobToKZGCommitment(blob)) })
		return r
	}
	return show(k.BlobToKZGCommitment(blob))
}

//go:noinline
func lastUseAlone(blob []byte) string {
	// nothing else holds the context
	return show(kzg.NewProverContext().BlobToKZGCommitment(blob))
}

func main() {
	f, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	u := func(p int) int { return int(binary.LittleEndian.Uint32(f[p:])) }
	pool := make([][]byte, u(0))
	p := 4
	for i := range pool {
		n := u(p)
		pool[i] = append(make([]byte, 0, n), f[p+4:p+4+n]...)
		p += 4 + n
	}
	before := digest(pool)
	plan, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var k *kzg.DASContext
	messages := C.shim_messages()
	for _, l := range strings.Split(strings.TrimSpace(string(plan)), "\n") {
		if l == "" {
			continue
		}
		parts := strings.Split(l, " | ")
		h := strings.Fields(parts[0])
		say("B %s", h[0])
		keeping.Lock()
		current = h[0]
		keeping.Unlock()
		var blobs [][]byte
		for _, o := range parts[1:] {
			n, e := strconv.Atoi(strings.Fields(o)[1])
			if e != nil {
				blobs = append(blobs, nil)
				continue
			}
			blobs = append(blobs, pool[n])
		}
		var res []string
		switch h[2] {
		case "last":
			res = append(res, lastUse(blobs[0], false))
		case "lastgc":
			res = append(res, lastUse(blobs[0], true))
		case "lastalone":
			during(func() { res = append(res, lastUseAlone(blobs[0])) })
		case "drop":
			// every context that is no longer used is freed, once
			for _, b := range blobs {
				res = append(res, lastUseAlone(b))
			}
			// only the context of the other cases, if there is one, is still used
			var used C.long
			if k != nil {
				used = 1
			}
			for t := time.Now(); C.shim_contexts() > used && time.Since(t) < 2*time.Minute; {
				collect()
			}
			if g := C.shim_contexts() - used; g > 0 {
				say("X %s %d contexts are left after collection", h[0], g)
			}
			runtime.KeepAlive(k)
		case "nil":
			if k == nil {
				k = kzg.NewProverContext()
			}
			res = append(res, call(k, nil))
		case "par":
			// all calls at once
			if k == nil {
				k = kzg.NewProverContext()
			}
			res = make([]string, len(blobs))
			var wg sync.WaitGroup
			collect()
			for i := range blobs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					res[i] = call(k, blobs[i])
				}(i)
			}
			collect()
			wg.Wait()
		default:
			if k == nil {
				k = kzg.NewProverContext()
			}
			for _, b := range blobs {
				guard := append([]byte(nil), b...)
				if h[2] == "gc" {
					collect()
					during(func() { res = append(res, call(k, b)) })
					collect()
				} else {
					res = append(res, call(k, b))
				}
				if !bytes.Equal(guard, b) {
					say("X %s modified the blob", h[0])
				}
			}
		}
		if g := C.shim_messages(); g != messages {
			say("X %s %d error messages were not freed", h[0], g-messages)
			messages = g
		}
		switch w := C.shim_wrong(); {
		case w&1 != 0:
			say("X %s the context was freed while a call used it", h[0])
		case w&2 != 0:
			say("X %s a context was freed twice", h[0])
		case w&4 != 0:
			say("X %s a context was used after it was freed", h[0])
		}
		say("E %s %s", h[0], strings.Join(res, " "))
	}
	if os.Getenv("MC_CASE") == "" {
		for _, c := range []struct {
			name      string
			have, want int
		}{
			{"BytesPerCommitment", kzg.BytesPerCommitment, 48},
			{"BytesPerProof", kzg.BytesPerProof, 48},
			{"BytesPerFieldElement", kzg.BytesPerFieldElement, 32},
			{"BytesPerBlob", kzg.BytesPerBlob, 131072},
			{"MaxNumColumns", kzg.MaxNumColumns, 128},
			{"BytesPerCell", kzg.BytesPerCell, 2048},
		} {
			say("B published/%s", c.name)
			if c.have == c.want {
				say("I case published/%s", c.name)
			} else {
				say("X published/%s is %d, not %d", c.name, c.have, c.want)
			}
		}
	}
	for len(results) > 0 {
		forget()
	}
	if digest(pool) != before {
		say("X pool an input was modified")
	}
	say("END")
	_ = k
}
