// Package simfmt redirects the fmt functions that write to standard output.
package simfmt

import (
	"fmt"

	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(simos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(simos.Stdout, format, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(simos.Stdout, a...) }
