package v1beta2

import (
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
)

// ZzCluster exposes the webhooks of MySQLCluster to the harness.
func ZzCluster(c client.Reader) (admission.Validator[*MySQLCluster], admission.Defaulter[*MySQLCluster]) {
	a := &mySQLClusterAdmission{client: c}
	return a, a
}

// ZzPolicy exposes the webhook of BackupPolicy to the harness.
func ZzPolicy(c client.Reader) admission.Validator[*BackupPolicy] {
	return &backupPolicyAdmission{client: c}
}
