package main

import (
	"github.com/ThinkiumGroup/go-common/log"
	"github.com/sirupsen/logrus"

	"verif/harness/fw"
	_ "verif/harness/seq"
)

func main() {
	// debug logging of whole trees would dominate the cost of an exploration
	if l, ok := log.WithField().(*logrus.Logger); ok {
		l.SetLevel(logrus.FatalLevel)
	}
	fw.Main()
}
