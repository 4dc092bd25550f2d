package cmd

import (
	"context"

	"github.com/spf13/cobra"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// ZzRun runs a subcommand of kubectl-moco after the flags were parsed.
func ZzRun(ctx context.Context, c client.Client, ns string, path []string, flags map[string]string, args []string) error {
	kubeClient, namespace = c, ns
	cmd := rootCmd
	for _, p := range path {
		var next *cobra.Command
		for _, x := range cmd.Commands() {
			if x.Name() == p {
				next = x
			}
		}
		cmd = next
	}
	cmd.SetContext(ctx)
	credentialConfig.user, credentialConfig.format = flags["mysql-user"], flags["format"]
	return cmd.RunE(cmd, args)
}

// ZzPod is the choice of a Pod.
var ZzPod = getPodName
