package librpki

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func vvRand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VV_SEED"))
	return rand.New(rand.NewSource(int64(s)))
}

func vvN(quick int) int {
	if os.Getenv("VV_TIER") == "thorough" {
		return quick * 20
	}
	return quick
}

func vvFail(t *testing.T, prop, format string, a ...interface{}) {
	t.Helper()
	fmt.Printf("\nVVFAIL %s: %s\n", prop, fmt.Sprintf(format, a...))
	t.FailNow()
}

// vvGuard turns a crash into a reported failing input.
func vvGuard(t *testing.T, prop string, input interface{}, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			vvFail(t, prop, "crash %v on input %s", r, fmt.Sprintf("%#v", input))
		}
	}()
	f()
}
