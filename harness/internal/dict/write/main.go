// Command write writes the baseline of the constants of the code under test, which package dict compares with.
package main

import (
	"fmt"
	"os"
	"sort"

	"verif/harness/internal/dict"
)

func main() {
	m := dict.Count(dict.Repo)
	var lines []string
	for k, n := range m {
		lines = append(lines, fmt.Sprintf("%d %s\n", n, k))
	}
	sort.Slice(lines, func(i, j int) bool { return lines[i] < lines[j] })
	for _, l := range lines {
		fmt.Fprint(os.Stdout, l)
	}
}
