// Package racelog reads the reports of the race detector.
package racelog

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func path() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", f[9:], os.Getpid())
		}
	}
	return ""
}

// Size is the present size of the log.
func Size() int64 {
	st, err := os.Stat(path())
	if err != nil {
		return 0
	}
	return st.Size()
}

// Since lists the pairs of conflicting accesses reported since the given position of the log:
// for both accesses, the innermost function of the library (or else of anything) it was made in.
func Since(from int64) []string {
	out := []string{}
	b, err := os.ReadFile(path())
	if err != nil || int64(len(b)) <= from {
		return out
	}
	seen := map[string]bool{}
	for _, rep := range strings.Split(string(b[from:]), "WARNING: DATA RACE")[1:] {
		var sites []string
		for _, part := range strings.Split(rep, "\n\n") {
			lines := strings.Split(strings.TrimSpace(part), "\n")
			h := strings.TrimSpace(lines[0])
			if !(strings.HasPrefix(h, "Write at") || strings.HasPrefix(h, "Read at") || strings.HasPrefix(h, "Previous write") || strings.HasPrefix(h, "Previous read") ||
				strings.HasPrefix(h, "Atomic") || strings.HasPrefix(h, "Previous atomic")) {
				continue
			}
			site, first := "", ""
			for _, l := range lines[1:] {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "/") || l == "" {
					continue
				}
				l = strings.TrimSuffix(l, "()")
				if first == "" {
					first = l
				}
				if site == "" && strings.HasPrefix(l, "mk-lattigo/") {
					site = l
				}
			}
			if site == "" {
				site = first
			}
			kind := "reads"
			if strings.Contains(strings.ToLower(h), "write") {
				kind = "writes"
			}
			sites = append(sites, site+" "+kind)
		}
		sort.Strings(sites)
		s := strings.Join(sites, ", ")
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}
