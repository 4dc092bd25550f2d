package backup

import (
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/bkop"
	"github.com/cybozu-go/moco/pkg/bucket"
	"github.com/go-logr/logr"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// ZzOperator makes the package use another constructor of operators.
func ZzOperator(f func(host string, port int, user, password string, threads int) (bkop.Operator, error)) {
	newOperator = f
}

// ZzBackup makes a BackupManager as NewBackupManager does, with a given client.
func ZzBackup(c client.Client, b bucket.Bucket, cluster *mocov1beta2.MySQLCluster, dir, password string, threads int) *BackupManager {
	return &BackupManager{
		log:           logr.Discard(),
		client:        c,
		cluster:       cluster,
		clusterRef:    &corev1.ObjectReference{Kind: "MySQLCluster", Namespace: cluster.Namespace, Name: cluster.Name},
		mysqlPassword: password,
		workDir:       dir,
		bucket:        b,
		threads:       threads,
	}
}

// ZzRestore makes a RestoreManager as NewRestoreManager does, with a given client.
func ZzRestore(c client.Client, sch *runtime.Scheme, b bucket.Bucket, dir, srcNS, srcName, ns, name, password string, threads int, restorePoint time.Time, schema, users string) *RestoreManager {
	return &RestoreManager{
		log:          logr.Discard(),
		client:       c,
		scheme:       sch,
		namespace:    ns,
		name:         name,
		password:     password,
		threads:      threads,
		bucket:       b,
		keyPrefix:    calcPrefix(srcNS, srcName),
		restorePoint: restorePoint,
		workDir:      dir,
		schema:       schema,
		users:        users,
	}
}
