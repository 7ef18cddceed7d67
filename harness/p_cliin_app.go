//go:build cli_app

package main

import (
	"io"

	"github.com/urfave/cli/v2"

	cliapp "github.com/recolude/rap/cmd/rapmoncliapp"
)

func init() {
	cli.OsExiter = func(int) {}
	cli.ErrWriter = io.Discard
	cliRun = func(in io.Reader, out, errs io.Writer, args ...string) error {
		return cliapp.BuildApp(in, out, errs).Run(append([]string{"rap-cli"}, args...))
	}
}
