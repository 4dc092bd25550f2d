package cmd

import (
	"github.com/cybozu-go/moco/pkg/dbop"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// ZZResolver is the resolver the controller uses.
func ZZResolver(r client.Reader) dbop.Resolver { return resolver{reader: r} }
