//go:build cli_summary

package main

import cliapp "github.com/recolude/rap/cmd/rapmoncliapp"

func init() { cliSummary = cliapp.RapmonSummary }
