//go:build cli_json

package main

import cliapp "github.com/recolude/rap/cmd/rapmoncliapp"

func init() { cliJSON = cliapp.RapmonJSON }
