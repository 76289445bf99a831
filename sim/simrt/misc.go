package simrt

import (
	"fmt"
	"math/rand"
)

// Exit replaces os.Exit.
func Exit(code int) {
	if S != nil && S.onExit != nil {
		S.onExit(code)
	}
	panic(exitT{code, "os.Exit"})
}

// OnExit has f called when the program ends itself.
func OnExit(f func(code int)) { S.onExit = f }

func Fatal(a ...any)            { panic(exitT{1, fmt.Sprint(a...)}) }
func Fatalf(f string, a ...any) { panic(exitT{1, fmt.Sprintf(f, a...)}) }
func Fatalln(a ...any)          { panic(exitT{1, fmt.Sprintln(a...)}) }

type miscSource struct{}

func (miscSource) Int63() int64 {
	if S == nil {
		return 4
	}
	return int64(S.Src.Choose(StMisc, 1<<31))<<31 | int64(S.Src.Choose(StMisc, 1<<31))
}
func (miscSource) Seed(int64) {}

var rnd = rand.New(miscSource{})

func RandInt() int                        { return rnd.Int() }
func RandIntn(n int) int                  { return rnd.Intn(n) }
func RandInt31() int32                    { return rnd.Int31() }
func RandInt31n(n int32) int32            { return rnd.Int31n(n) }
func RandInt63() int64                    { return rnd.Int63() }
func RandInt63n(n int64) int64            { return rnd.Int63n(n) }
func RandUint32() uint32                  { return rnd.Uint32() }
func RandUint64() uint64                  { return rnd.Uint64() }
func RandFloat64() float64                { return rnd.Float64() }
func RandFloat32() float32                { return rnd.Float32() }
func RandPerm(n int) []int                { return rnd.Perm(n) }
func RandShuffle(n int, f func(i, j int)) { rnd.Shuffle(n, f) }
func RandSeed(int64)                      {}

// Print functions capture standard output.
func out(s string) (int, error) {
	if S != nil {
		point()
		S.stdout = append(S.stdout, s...)
		if S.onOut != nil {
			S.onOut(s)
		}
	}
	return len(s), nil
}
func Printf(f string, a ...any) (int, error) { return out(fmt.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return out(fmt.Sprintln(a...)) }
func Print(a ...any) (int, error)            { return out(fmt.Sprint(a...)) }

// OnOut has f called with every piece of text printed.
func OnOut(f func(s string)) { S.onOut = f }

// Stdout is what was printed so far.
func Stdout() string { return string(S.stdout) }
