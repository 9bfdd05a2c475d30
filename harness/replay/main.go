// Command replay runs harnesses natively on concrete assignments.
package main

import (
	_ "github.com/breml/logstash-config/internal/verifharness/h"
	"github.com/breml/logstash-config/internal/verifharness/rp"
)

func main() { rp.Main() }
