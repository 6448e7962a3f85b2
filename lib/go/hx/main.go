// The driver: reads rounds of calls from standard input, runs the calls of a round at the same time and writes
// what they returned to descriptor 3.
package main

/*
#cgo LDFLAGS: -L${SRCDIR}/../falcon/nistfalcon/build -lfalcon
void hx_lockstep(int on);
*/
import "C"

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/ZKNoxHQ/ETHFALCON/falcon"
	"hx/pre"
)

type call struct {
	Op             string
	M, K, S, Input []byte
}
type result struct {
	X    string // how the call failed to return
	Err  bool
	Ok   bool
	A, B []byte
}
type round struct {
	Lock  bool // make the callers meet inside the random generator
	Rep   int  // how often a call whose result is determined is made
	Calls []call
}

func do(c call) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r = result{X: fmt.Sprint("panic: ", p)}
		}
	}()
	var err error
	switch c.Op {
	case "keygen":
		r.A, r.B, err = falcon.GenerateKeypair()
	case "sign":
		r.A, err = falcon.SignMessage(c.M, c.K)
	case "verify":
		r.Ok, err = falcon.VerifySignature(c.S, c.M, c.K)
	case "run":
		r.A, err = pre.New().Run(c.Input)
	}
	r.Err = err != nil
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	for {
		var rd round
		if dec.Decode(&rd) != nil {
			return
		}
		res := make([]result, len(rd.Calls))
		if rd.Lock {
			C.hx_lockstep(1)
		} else {
			C.hx_lockstep(0)
		}
		var wg, ready sync.WaitGroup
		start := make(chan int)
		for i := range rd.Calls {
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				res[i] = do(rd.Calls[i])
				if o := rd.Calls[i].Op; o == "verify" || o == "run" {
					for k := 1; k < rd.Rep && res[i].X == ""; k++ {
						r := do(rd.Calls[i])
						if r.X != "" || r.Ok != res[i].Ok || !bytes.Equal(r.A, res[i].A) {
							res[i].X = "its result varies: " + r.X
						}
					}
				}
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		enc.Encode(res)
	}
}
