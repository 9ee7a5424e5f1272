// Command runner replays choice tapes on the natively compiled target.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/LazarenkoA/1c-language-parser/zzverif/h"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

type req struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Tape    []uint64       `json:"tape"`
}

type res struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Log    []string `json:"log"`
}

func main() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2<<30 {
				fmt.Fprintln(os.Stderr, "memory grows without bound")
				os.Exit(3)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.Stdout // kept referenced: a collected file is closed
	os.Stdout, _ = os.Open(os.DevNull)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		if err := json.Unmarshal(l, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		f := h.All[q.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", q.Harness)
			os.Exit(4)
		}
		s, m, lg := verif.Run(f, q.Tape, q.Params)
		for i := range lg {
			lg[i] = strconv.Quote(lg[i])
		}
		b, _ := json.Marshal(res{s, strconv.Quote(m), lg})
		out.Write(append(b, '\n'))
	}
}
