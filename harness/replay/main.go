// Command replay runs one harness natively on one assignment (standard input) and prints the outcome.
package main

import (
	"fmt"
	"io"
	"os"

	"verif/harness/vsym"
)

func main() {
	js, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	name, err := vsym.Load(js)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f, ok := registry[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness", name)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("RESULT panic", r)
		}
	}()
	f()
	fmt.Println("RESULT ok")
}
