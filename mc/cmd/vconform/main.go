// Command vconform runs the translated conformance programs on the virtual
// runtime under every schedule within a preemption bound and compares their
// outcomes with those of the native run given as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verifmc/modbus"
	"verifmc/shim/net"
	"verifmc/vrt"
)

func main() {
	var want map[string][]string
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &want)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	bad, total := 0, 0
	for _, p := range conform.Programs {
		p := p
		n, fails := 0, 0
		var got string
		body := func() {
			net.NewNetwork()
			got = p.Run()
			vrt.Settle()
		}
		stack := [][]int{nil}
		for len(stack) > 0 && n < 20000 && fails < 2 {
			pre := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			got = ""
			cfg := vrt.Config{Preempt: 1, BlockCost: 1}
			r := vrt.Run(cfg, pre, body)
			n++
			ok := false
			for _, w := range want[p.Name] {
				ok = ok || w == got
			}
			if r.Fail != nil || !ok {
				fails++
				fmt.Printf("%s, choices %v: failure %v, outcome\n%swant one of %q\n", p.Name, pre, r.Fail, got, want[p.Name])
			}
			for i := len(r.Choices) - 1; i >= len(pre); i-- {
				for a := r.Choices[i].N - 1; a >= 1; a-- {
					q := make([]int, i+1)
					for k := range q[:i] {
						q[k] = r.Choices[k].C
					}
					q[i] = a
					stack = append(stack, q)
				}
			}
		}
		if len(want[p.Name]) != 1 {
			fmt.Printf("%s: the native outcomes differ: %q\n", p.Name, want[p.Name])
		}
		fmt.Printf("%-22s %6d schedules, %d deviations, exhaustive=%v\n", p.Name, n, fails, len(stack) == 0)
		bad += fails
		total += n
	}
	if vrt.Race {
		for _, p := range conform.Racy {
			p, found, n := p, false, 0
			stack := [][]int{nil}
			for len(stack) > 0 && !found {
				pre := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				r := vrt.Run(vrt.Config{Preempt: 1, BlockCost: 1}, pre, func() { net.NewNetwork(); p.Run() })
				n++
				found = r.Fail != nil && r.Fail.Kind == "race"
				for i := len(r.Choices) - 1; i >= len(pre); i-- {
					for a := r.Choices[i].N - 1; a >= 1; a-- {
						q := make([]int, i+1)
						for k := range q[:i] {
							q[k] = r.Choices[k].C
						}
						q[i] = a
						stack = append(stack, q)
					}
				}
			}
			fmt.Printf("racy %-27s reported=%v after %d schedules\n", p.Name, found, n)
			if !found {
				bad++
			}
		}
	}
	fmt.Printf("%d programs, %d schedules, %d deviations\n", len(conform.Programs), total, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
