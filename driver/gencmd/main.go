// gencmd reads file names and runs the generator on each, writing FILE.out.go.
// A line "@E<TAB>FILE<TAB>error" is printed for each file the generator refuses.
package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/iv-menshenin/valyjson/generator"
)

func one(f string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	g := generator.New(f)
	if err := g.Parse(); err != nil {
		return err
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports()
	g.Print(f + ".out.go")
	return nil
}

func main() {
	s := bufio.NewScanner(os.Stdin)
	for s.Scan() {
		if err := one(s.Text()); err != nil {
			fmt.Printf("@E\t%s\t%q\n", s.Text(), err.Error())
			os.Remove(s.Text() + ".out.go")
		}
	}
}
