package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// step profile (VP_STEPS=1): interpreted instructions per function
var (
	stepProf = os.Getenv("VP_STEPS") != ""
	stepMu   sync.Mutex
	stepCnt  = map[string]int64{}
)

func countSteps(fc *fcode, n int) {
	stepMu.Lock()
	stepCnt[fc.fn.String()] += int64(n)
	stepMu.Unlock()
}

func dumpSteps() {
	type kv struct {
		k string
		n int64
	}
	var l []kv
	var tot int64
	for k, n := range stepCnt {
		l = append(l, kv{k, n})
		tot += n
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 30; i++ {
		fmt.Fprintf(os.Stderr, "%5.1f%% %s\n", 100*float64(l[i].n)/float64(tot), l[i].k)
	}
}
