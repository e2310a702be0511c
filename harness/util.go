package main

import (
	"encoding/json"
	"math/rand"
	"sort"
)

func sortInts(a []int) { sort.Ints(a) }

func jsonUnmarshal(s string, v interface{}) error { return json.Unmarshal([]byte(s), v) }

func shuffle(s []*Script, seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
}
