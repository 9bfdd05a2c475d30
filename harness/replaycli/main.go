// Command replaycli runs harnesses natively on concrete assignments.
package main

import (
	_ "github.com/breml/logstash-config/internal/verifharness/cli"
	"github.com/breml/logstash-config/internal/verifharness/rp"
)

func main() { rp.Main() }
