package cmd

import (
	"context"

	"github.com/spf13/cobra"
)

// ZzRun runs a subcommand of moco-backup as the command line does, after the
// flags were parsed.
func ZzRun(ctx context.Context, workDir, endpoint, password string, name string, args []string) error {
	commonArgs.workDir, commonArgs.threads = workDir, 2
	commonArgs.endpointURL, commonArgs.usePathStyle, commonArgs.region, commonArgs.backendType = endpoint, true, "here", "s3"
	mysqlPassword = password
	for _, c := range []*cobra.Command{backupCmd, restoreCmd} {
		if c.Name() == name {
			c.SetContext(ctx)
			return c.RunE(c, args)
		}
	}
	panic("no such command")
}
