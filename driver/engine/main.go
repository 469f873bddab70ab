package engine

import (
	"fmt"
	"os"
	"strconv"
)

// Main: drv ENV LITERALS IN OUT SEED [BATCH]
func Main(roots map[string]Root) {
	if len(os.Args) < 6 {
		fmt.Fprintln(os.Stderr, "driver: arguments")
		os.Exit(3)
	}
	seed, _ := strconv.Atoi(os.Args[5])
	batch := 1
	if len(os.Args) > 6 {
		batch, _ = strconv.Atoi(os.Args[6])
	}
	Load(os.Args[1], os.Args[2], roots).Replay(os.Args[3], os.Args[4], seed, batch)
}
