// Command fakersync stands in for rsync: it passes its arguments to the
// checking process, which plays the server, and does as it is told.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"strconv"
	"syscall"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-stall" {
		stall(os.Args[2], os.Args[3:])
	}
	if os.Getenv("VERIF_RSYNC_CHILD") != "" {
		forever(os.NewFile(3, "connection"))
	}
	c, err := net.Dial("unix", os.Getenv("VERIF_RSYNC_SOCK"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	json.NewEncoder(c).Encode(os.Args[1:])
	var a struct {
		Out, Err string
		Code     int
		Hang     string
	}
	if err := json.NewDecoder(c).Decode(&a); err != nil {
		os.Exit(98)
	}
	fmt.Fprint(os.Stdout, a.Out)
	fmt.Fprint(os.Stderr, a.Err)
	switch a.Hang {
	case "silent":
		forever(c)
	case "closed":
		os.Stdout.Close()
		os.Stderr.Close()
		forever(c)
	case "term":
		signal.Ignore(syscall.SIGTERM)
		forever(c)
	case "child", "orphan":
		sig := make(chan os.Signal, 1)
		if a.Hang == "child" {
			signal.Notify(sig, syscall.SIGTERM)
		}
		// The child has the connection, which lasts as long as it does.
		f, _ := c.(*net.UnixConn).File()
		ch := exec.Command(os.Args[0])
		ch.Env = append(os.Environ(), "VERIF_RSYNC_CHILD=1")
		ch.ExtraFiles = []*os.File{f}
		ch.Stdout, ch.Stderr = os.Stdout, os.Stderr
		if err := ch.Start(); err != nil {
			os.Exit(97)
		}
		go forever(c)
		<-sig
		ch.Process.Kill()
		ch.Wait()
		os.Exit(20)
	}
	os.Exit(a.Code)
}

// forever waits until the other side closes the connection.
func forever(c io.Reader) {
	io.Copy(io.Discard, c)
	os.Exit(96)
}

// stall runs a command and stops passing on its output after some bytes.
func stall(after string, args []string) {
	n, _ := strconv.ParseInt(after, 10, 64)
	cmd := exec.Command(args[0], args[1:]...)
	in, err := cmd.StdinPipe()
	if err == nil {
		var out io.ReadCloser
		if out, err = cmd.StdoutPipe(); err == nil {
			if err = cmd.Start(); err == nil {
				end := make(chan struct{})
				go func() {
					io.Copy(in, os.Stdin)
					in.Close()
					close(end)
				}()
				if m, _ := io.CopyN(os.Stdout, out, n); m == n {
					<-end
					cmd.Process.Kill()
				}
				os.Stdout.Close()
				cmd.Wait()
				os.Exit(0)
			}
		}
	}
	os.Exit(97)
}
