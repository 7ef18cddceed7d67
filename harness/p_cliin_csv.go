//go:build cli_csv

package main

import cliapp "github.com/recolude/rap/cmd/rapmoncliapp"

func init() { cliCSV = cliapp.RapmonCSV }
