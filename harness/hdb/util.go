package hdb

import (
	"strings"

	corev1 "k8s.io/api/core/v1"
)

func secret() *corev1.Secret {
	s := &corev1.Secret{}
	s.Annotations = map[string]string{"moco.cybozu.com/secret-version": "1"}
	s.Data = map[string][]byte{}
	for k, v := range map[string]string{
		"ADMIN_PASSWORD": "admin-pass", "AGENT_PASSWORD": "agent-pass", "REPLICATION_PASSWORD": "repl-pass",
		"CLONE_DONOR_PASSWORD": "donor-pass", "EXPORTER_PASSWORD": "exp-pass", "BACKUP_PASSWORD": "backup-pass",
		"READONLY_PASSWORD": "ro-pass", "WRITABLE_PASSWORD": "rw-pass"} {
		s.Data[k] = []byte(v)
	}
	return s
}

// parseDSN takes user:password@tcp(addr)/... apart.
func parseDSN(d string) (user, addr string, ok bool) {
	i := strings.LastIndex(d, "@tcp(")
	if i < 0 {
		return "", "", false
	}
	user = d[:i]
	addr, _, ok = strings.Cut(d[i+5:], ")/")
	return user, addr, ok
}
