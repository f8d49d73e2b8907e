package main

import (
	"fmt"
	"io"
	"os"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/sirupsen/logrus"
)

var checks = map[string]func(*vk.Run){}

func main() {
	logrus.SetOutput(io.Discard)
	logrus.StandardLogger().ExitFunc = func(c int) { panic(fmt.Sprintf("log.Fatal: exit %d", c)) }
	if len(os.Args) < 2 {
		fmt.Println("usage: hval <property>")
		os.Exit(2)
	}
	if f, ok := helpers[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	f, ok := checks[os.Args[1]]
	if !ok {
		fmt.Println("no check for", os.Args[1])
		os.Exit(2)
	}
	r := vk.New(os.Args[1])
	f(r)
	r.Finish()
}

// helpers are subprocess entry points.
var helpers = map[string]func([]string){}
