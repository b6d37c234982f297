package main

import (
	"os"

	"mc/checks"
	"mc/hz"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-child" {
		checks.Child(os.Args[2])
	}
	hz.Main()
}
