package main

import (
	"fmt"
	"os"

	"github.com/ThinkiumGroup/go-common/log"
	"github.com/sirupsen/logrus"

	"verif/harness/fw"
)

func main() {
	if l, ok := log.WithField().(*logrus.Logger); ok {
		l.SetLevel(logrus.FatalLevel)
	}
	if len(os.Args) > 2 && os.Args[1] == "-worker" {
		workerMain(os.Args[2])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-litmus" {
		if n, e, bad := runLitmus(); bad != "" {
			fmt.Println(bad)
		} else {
			fmt.Println("litmus ok", n, e)
		}
		return
	}
	fw.Main()
}
