From 89d4aeb9205ed0c4ff668aa8676cd597a05c08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:44 +0000
Subject: [PATCH 01/27] fix: do not crash on the missing Pods of an offline
 cluster

GatherStatus accepts an offline cluster that has fewer Pods than replicas
and leaves nil for them. The prevent-delete annotation code dereferenced
these, which crashed the controller.
---
 clustering/operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..b9d8b19 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -354,6 +354,10 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		if pod == nil {
+			// Pods of an offline cluster may not exist.
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
@@ -369,6 +373,10 @@ func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusS
 func (p *managerProcess) addAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	ppod := ss.Pods[ss.Primary]
+	if ppod == nil {
+		// Pods of an offline cluster may not exist.
+		return nil
+	}
 	newPod := ppod.DeepCopy()
 	if newPod.Annotations == nil {
 		newPod.Annotations = make(map[string]string)
-- 
2.43.0


From 9eba59ba82a9daa7a0fe26a7fc1505de82ca8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:44 +0000
Subject: [PATCH 02/27] fix: do not record the initial clone of an offline
 cluster as completed

A cluster created offline with a replication source got Cloned=true
without any data, and was never cloned after it went online.
---
 clustering/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 7d9be5e..527606e 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -338,7 +338,8 @@ func (p *managerProcess) updateStatus(ctx context.Context, ss *StatusSet) error
 		// the completion of initial cloning is recorded in the status
 		// to make it possible to determine the cloning status even while
 		// the primary instance is down.
-		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning {
+		// an offline cluster may not have been cloned yet.
+		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning && ss.State != StateOffline {
 			cluster.Status.Cloned = true
 		}
 
-- 
2.43.0


From e802cffc1245e64b68d931f06a41092d2d742f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:53 +0000
Subject: [PATCH 03/27] fix: drop log_bin and the like from my.cnf also when
 spelled with loose_

mysqld treats loose_skip_log_bin as skip_log_bin, so that a user could
turn off the binary log, which MOCO depends on.
---
 pkg/mycnf/generator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 2dfe93d..919a9f7 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -165,10 +165,11 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	}
 
 	delete(mysqldConf, opaqueKey)
-	delete(mysqldConf, "log_bin")
-	delete(mysqldConf, "log_error")
-	delete(mysqldConf, "skip_log_bin")
-	delete(mysqldConf, "disable_log_bin")
+	for _, k := range []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"} {
+		for _, kk := range listConfKeyVariations(k) {
+			delete(mysqldConf, kk)
+		}
+	}
 
 	conf := make(map[string]map[string]string)
 	conf["mysqld"] = mysqldConf
-- 
2.43.0


From a763ca7f6155f27810c1fb0a9ee2761c8b71e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:53 +0000
Subject: [PATCH 04/27] fix: generate the same my.cnf for the same input

When the user configuration has different spellings of an option, which
one took effect depended on the iteration order of the map, so that the
name of the ConfigMap could change at every reconciliation and restart
mysqld.
---
 pkg/mycnf/generator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 919a9f7..e68d517 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -230,12 +230,18 @@ func mergeSection(conf1, conf2 map[string]string) map[string]string {
 		conf[nk] = v
 	}
 
-	for k, v := range conf2 {
+	// sort keys because different keys may be normalized to the same option
+	keys2 := make([]string, 0, len(conf2))
+	for k := range conf2 {
+		keys2 = append(keys2, k)
+	}
+	sort.Strings(keys2)
+	for _, k := range keys2 {
 		nk := normalizeConfKey(k)
 		for _, kk := range listConfKeyVariations(nk) {
 			delete(conf, kk)
 		}
-		conf[nk] = v
+		conf[nk] = conf2[k]
 	}
 
 	return conf
-- 
2.43.0


From cdda59e94376ec6db0e37450ca4d1627d34e5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:54 +0000
Subject: [PATCH 05/27] fix: apply every transaction a former replica retrieved
 before making it writable

---
 clustering/operations.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index b9d8b19..759912a 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -525,6 +525,13 @@ func (p *managerProcess) configurePrimary(ctx context.Context, ss *StatusSet) (r
 			return false, err
 		}
 		time.Sleep(100 * time.Millisecond)
+
+		// the instance may have retrieved more transactions before the thread stopped.
+		st, err := op.GetStatus(ctx)
+		if err != nil {
+			return false, fmt.Errorf("failed to recheck the status of instance %d: %w", ss.Primary, err)
+		}
+		pst = st
 	}
 	if pst.ReplicaStatus != nil && pst.ReplicaStatus.RetrievedGtidSet != "" {
 		redo = true
-- 
2.43.0


From b0fa0ee2421b1b5d9ce9798e6846c5c9bd8846e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:46 +0000
Subject: [PATCH 06/27] fix: create the backup Role and RoleBinding even if the
 CronJob is already up to date

When applying the Role or the RoleBinding failed once, later reconciliations
found the CronJob unchanged and returned without creating them.
---
 controllers/mysqlcluster_controller.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6cc67d2..cca4b36 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1324,14 +1324,12 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}
 	orig, err := apply(ctx, r.Client, key, cronJob, batchv1ac.ExtractCronJob)
-	if err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return nil
-		}
+	notChanged := errors.Is(err, ErrApplyConfigurationNotChanged)
+	if err != nil && !notChanged {
 		return fmt.Errorf("failed to reconcile %s CronJob for backup: %w", cronJobName, err)
 	}
 
-	if debugController {
+	if debugController && !notChanged {
 		var updated batchv1.CronJob
 
 		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
@@ -1343,7 +1341,9 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 		}
 	}
 
-	log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	if !notChanged {
+		log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	}
 
 	if err := r.reconcileV1BackupJobRole(ctx, cluster); err != nil {
 		return err
-- 
2.43.0


From 89701d76231e160eff6c4e09e77e9632d470f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 07/27] fix: resize PVCs also while the StatefulSet is updating
 or the cluster is offline

The StatefulSet is recreated with the new volume size in any case, after which
the need for resizing is not seen any more, so the PVCs stayed small forever.
---
 controllers/pvc.go | 38 ++------------------------------------
 1 file changed, 2 insertions(+), 36 deletions(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index a826ca4..462d660 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -51,10 +51,6 @@ func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *moco
 		return err
 	}
 
-	if r.isUpdatingStatefulSet(&sts) {
-		return nil
-	}
-
 	resizeTarget, ok := r.needResizePVC(cluster, &sts)
 	if !ok {
 		return nil
@@ -95,6 +91,8 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 	} else {
 		replicas = *sts.Spec.Replicas
 	}
+	// The StatefulSet has no replicas while the cluster is offline, but its PVCs are kept.
+	replicas = max(replicas, cluster.Spec.Replicas)
 	pvcsToKeep := make(map[string]*resource.Quantity, replicas*int32(len(resizeTarget)))
 	for _, pvc := range resizeTarget {
 		for i := int32(0); i < replicas; i++ {
@@ -221,38 +219,6 @@ func (r *MySQLClusterReconciler) isVolumeExpansionSupported(ctx context.Context,
 	return *storageClass.AllowVolumeExpansion, nil
 }
 
-// isUpdatingStatefulSet returns whether the StatefulSet is being updated or not.
-// refs: https://github.com/kubernetes/kubectl/blob/v0.24.2/pkg/polymorphichelpers/rollout_status.go#L119-L152
-func (*MySQLClusterReconciler) isUpdatingStatefulSet(sts *appsv1.StatefulSet) bool {
-	// Waiting for StatefulSet to be deleting.
-	if sts.DeletionTimestamp != nil {
-		return true
-	}
-
-	// Waiting for StatefulSet spec update to be observed
-	if sts.Status.ObservedGeneration == 0 || sts.Generation > sts.Status.ObservedGeneration {
-		return true
-	}
-	// Waiting for Pods to be ready
-	if sts.Spec.Replicas != nil && sts.Status.ReadyReplicas < *sts.Spec.Replicas {
-		return true
-	}
-	// Waiting for partitioned rollout to finish
-	if sts.Spec.UpdateStrategy.Type == appsv1.RollingUpdateStatefulSetStrategyType && sts.Spec.UpdateStrategy.RollingUpdate != nil {
-		if sts.Spec.Replicas != nil && sts.Spec.UpdateStrategy.RollingUpdate.Partition != nil {
-			if sts.Status.UpdatedReplicas < (*sts.Spec.Replicas - *sts.Spec.UpdateStrategy.RollingUpdate.Partition) {
-				return true
-			}
-		}
-	}
-	// Waiting for StatefulSet rolling update to complete
-	if sts.Status.UpdateRevision != sts.Status.CurrentRevision {
-		return true
-	}
-
-	return false
-}
-
 // syncPVCLabelAndAnnotationValues compares the label and annotation values set in the MySQLCluster's VolumeClaimTemplates with those of the PVC,
 // and updates the PVC's label and annotation if there are differences.
 // The keys to be synced are defined in MySQLClusterReconciler's PVCSyncLabelKeys and PVCSyncAnnotationKeys.
-- 
2.43.0


From eb8de307c8f28d9f519f5b13c6ba186b064c45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 08/27] fix: do not panic when syncing annotations to a PVC
 that has none

---
 controllers/pvc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index 462d660..38b1da9 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -274,6 +274,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		for _, key := range r.PVCSyncAnnotationKeys {
 			if value, ok := template.Annotations[key]; ok {
 				if pvc.Annotations[key] != value {
+					if pvc.Annotations == nil {
+						pvc.Annotations = make(map[string]string)
+					}
 					pvc.Annotations[key] = value
 					isUpdate = true
 				}
-- 
2.43.0


From 30eb77508a358f9277aafa16d8bccb637cc3c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:06 +0000
Subject: [PATCH 09/27] fix: pause clustering even if the status already says
 that it is inactive

The clustering process may have been started since that status was recorded,
for instance when the annotation was removed and added again.
---
 controllers/mysqlcluster_controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index cca4b36..b0bf8f1 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1826,12 +1826,12 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
 		return nil
 	}
 
-	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
-
 	for _, cond := range cluster.Status.Conditions {
 		if cond.Type == mocov1beta2.ConditionAvailable || cond.Type == mocov1beta2.ConditionHealthy {
 			cond.Status = metav1.ConditionUnknown
-- 
2.43.0


From d161e11ffe58cc3925bc4acc4b246dfefb8a5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:36 +0000
Subject: [PATCH 10/27] fix: do not delete ConfigMaps of clusters whose names
 begin with the name of this one

The prefix of the names of fluent-bit ConfigMaps had no separator, so that
cluster test deleted those of test2 when it had its slow log disabled or
when it had many.
---
 controllers/mysqlcluster_controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index b0bf8f1..aa86aad 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -559,7 +559,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 			return nil, fmt.Errorf("failed to reconcile configmap %s/%s for slow logs: %w", cluster.Namespace, cmName, err)
 		}
 
-		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName); err != nil {
+		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix+".", cmName); err != nil {
 			return nil, err
 		}
 
@@ -571,7 +571,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 			return nil, err
 		}
 		for _, old := range cms.Items {
-			if strings.HasPrefix(old.Name, prefix) {
+			if old.Name == prefix || strings.HasPrefix(old.Name, prefix+".") {
 				if err := r.Delete(ctx, &old); err != nil && !apierrors.IsNotFound(err) {
 					return nil, fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
 				}
-- 
2.43.0


From 42ba20b5a804c16e92edecd737b9cd2477358524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:18 +0000
Subject: [PATCH 11/27] fix: do not let Service templates change the selector
 and clusterIP

As documented these fields may not be customized.  Labels in the selector of a
template made the Service select no Pods.
---
 controllers/mysqlcluster_controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index aa86aad..3f9ed8e 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -669,6 +669,9 @@ func (r *MySQLClusterReconciler) reconcileV1Service1(ctx context.Context, cluste
 
 		if tmpl.Spec != nil {
 			s := (*corev1ac.ServiceSpecApplyConfiguration)(tmpl.Spec)
+			// These fields may not be customized.
+			s.ClusterIP = nil
+			s.Selector = nil
 			svc.WithSpec(s)
 		}
 	} else {
-- 
2.43.0


From 585f89ed8962754ceb463d22a0b5b4390bb1a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:08 +0000
Subject: [PATCH 12/27] fix: do not crash when the partition is larger than the
 number of Pods

---
 controllers/partition_controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..f8aed23 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -159,6 +159,10 @@ func (r *StatefulSetPartitionReconciler) isRolloutReady(ctx context.Context, clu
 	if nextRolloutTarget < 0 {
 		return false, nil
 	}
+	if nextRolloutTarget >= len(podList.Items) {
+		// There is no such Pod. Decreasing the partition affects no Pod.
+		return true, nil
+	}
 
 	if podList.Items[nextRolloutTarget].Labels[appsv1.ControllerRevisionHashLabelKey] == sts.Status.UpdateRevision {
 		return true, nil
-- 
2.43.0


From ebb70a733769f9defbcdd114f716119d69af021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:08 +0000
Subject: [PATCH 13/27] fix: do not undo the partition of a StatefulSet updated
 in the meantime

---
 controllers/partition_controller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index f8aed23..ad64fa7 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -306,7 +306,9 @@ func (r *StatefulSetPartitionReconciler) patchNewPartition(ctx context.Context,
 		return nil
 	}
 
-	patch := client.MergeFrom(sts.DeepCopy())
+	// The StatefulSet may have been updated in the meantime, which resets the partition.
+	// Decreasing the old partition would then roll out the update to all of the Pods.
+	patch := client.MergeFromWithOptions(sts.DeepCopy(), client.MergeFromWithOptimisticLock{})
 	sts.Spec.UpdateStrategy.RollingUpdate.Partition = &newPartition
 
 	if err := r.Patch(ctx, sts, patch); err != nil {
-- 
2.43.0


From 1fa2a6b2ce52fcb851116c85e65f5508f3601053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:08 +0000
Subject: [PATCH 14/27] fix: leave StatefulSets of other operators alone

---
 api/v1beta2/statefulset_webhhok.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index d45e02b..d3742f5 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -9,6 +9,7 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	"k8s.io/apimachinery/pkg/api/equality"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/apimachinery/pkg/runtime/schema"
 	ctrl "sigs.k8s.io/controller-runtime"
 	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
 )
@@ -40,7 +41,9 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 		return nil
 	}
 
-	if sts.OwnerReferences[0].Kind != "MySQLCluster" && sts.OwnerReferences[0].APIVersion != GroupVersion.String() {
+	ownerGV, err := schema.ParseGroupVersion(sts.OwnerReferences[0].APIVersion)
+	if err != nil || sts.OwnerReferences[0].Kind != "MySQLCluster" || ownerGV.Group != GroupVersion.Group {
+		//lint:ignore nilerr intentional
 		return nil
 	}
 
-- 
2.43.0


From 0c82110153d5cb908c2c0349a5319140f6d07873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:18 +0000
Subject: [PATCH 15/27] fix: do not crash when a partition is set after a
 forced rolling update

---
 api/v1beta2/statefulset_webhhok.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index d3742f5..5d89eba 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -68,14 +68,17 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 		return fmt.Errorf("failed to read old statefulset: %w", err)
 	}
 
-	partition := *sts.Spec.UpdateStrategy.RollingUpdate.Partition
-	oldPartition := *oldSts.Spec.UpdateStrategy.RollingUpdate.Partition
+	// The partition is not set after a forced rolling update.
+	if oldRollingUpdate := oldSts.Spec.UpdateStrategy.RollingUpdate; oldRollingUpdate != nil && oldRollingUpdate.Partition != nil {
+		partition := *sts.Spec.UpdateStrategy.RollingUpdate.Partition
+		oldPartition := *oldRollingUpdate.Partition
 
-	newSts := sts.DeepCopy()
-	newSts.Spec.UpdateStrategy = oldSts.Spec.UpdateStrategy
+		newSts := sts.DeepCopy()
+		newSts.Spec.UpdateStrategy = oldSts.Spec.UpdateStrategy
 
-	if partition != oldPartition && equality.Semantic.DeepEqual(newSts.Spec, oldSts.Spec) {
-		return nil
+		if partition != oldPartition && equality.Semantic.DeepEqual(newSts.Spec, oldSts.Spec) {
+			return nil
+		}
 	}
 
 	sts.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{
-- 
2.43.0


From 3dcdf6d55bab370a60e04bf7a6cc167e1273747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 16/27] fix: refuse user init containers and volumes with names
 that moco uses itself

---
 api/v1beta2/mysqlcluster_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 42f5d91..ab1ec42 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -255,7 +255,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		}
 
 		switch *container.Name {
-		case constants.InitContainerName:
+		case constants.InitContainerName, constants.CopyInitContainerName:
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
 		}
 	}
@@ -269,7 +269,8 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		switch *vol.Name {
 		case constants.TmpVolumeName, constants.RunVolumeName, constants.VarLogVolumeName,
 			constants.MySQLConfVolumeName, constants.MySQLInitConfVolumeName,
-			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName:
+			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName,
+			constants.GRPCSecretVolumeName, constants.SharedVolumeName:
 
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), vol.Name, "reserved volume name"))
 		}
-- 
2.43.0


From 48ad9aea10838a26d26fa610436d63c7d7540ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:37 +0000
Subject: [PATCH 17/27] fix: refuse volume claim templates whose requests do
 not include storage

---
 api/v1beta2/mysqlcluster_types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index ab1ec42..72e2a1b 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -172,7 +172,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 	}
 
 	for _, vc := range s.VolumeClaimTemplates {
-		if vc.Spec.Resources == nil || vc.Spec.Resources.Requests == nil || vc.Spec.Resources.Requests.Storage() == nil {
+		if vc.Spec.Resources == nil || vc.Spec.Resources.Requests == nil || !hasStorageRequest(*vc.Spec.Resources.Requests) {
 			allErrs = append(allErrs, field.Required(pp, fmt.Sprintf("required volume claim template %s storage requests is missing", vc.Name)))
 		}
 	}
@@ -368,6 +368,11 @@ func (s MySQLClusterSpec) validateVolumeExpansionSupported(ctx context.Context,
 	return allErrs
 }
 
+func hasStorageRequest(requests corev1.ResourceList) bool {
+	_, ok := requests[corev1.ResourceStorage]
+	return ok
+}
+
 func isVolumeExpansionSupported(sc *storagev1.StorageClass) bool {
 	if sc.AllowVolumeExpansion == nil {
 		return false
-- 
2.43.0


From d5167668c31982a4984b241396919d33ded259c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 18/27] fix: count replicas correctly when server IDs are near
 the maximum

---
 clustering/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/status.go b/clustering/status.go
index 7db5c26..5b0209d 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -366,7 +366,7 @@ func isPodReady(pod *corev1.Pod) bool {
 func replicasInCluster(cluster *mocov1beta2.MySQLCluster, replicas []dbop.ReplicaHost) int32 {
 	var n int32
 	for _, r := range replicas {
-		if r.ServerID >= cluster.Spec.ServerIDBase && r.ServerID < (cluster.Spec.ServerIDBase+cluster.Spec.Replicas) {
+		if r.ServerID >= cluster.Spec.ServerIDBase && r.ServerID-cluster.Spec.ServerIDBase < cluster.Spec.Replicas {
 			n++
 		}
 	}
-- 
2.43.0


From 6be442a9d8f664a651ca3ea07ed7c24ad1eede40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:27 +0000
Subject: [PATCH 19/27] fix: give mysqld --defaults-file as the first argument

---
 controllers/mysql_container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/mysql_container.go b/controllers/mysql_container.go
index 8bf48bf..238e642 100644
--- a/controllers/mysql_container.go
+++ b/controllers/mysql_container.go
@@ -30,8 +30,12 @@ func (r *MySQLClusterReconciler) makeV1MySQLDContainer(cluster *mocov1beta2.MySQ
 		return nil, fmt.Errorf("MySQLD container not found")
 	}
 
+	// mysqld accepts --defaults-file only as the first argument.
+	userArgs := source.Args
+	source.Args = nil
 	source.
 		WithArgs("--defaults-file="+filepath.Join(constants.MySQLConfPath, constants.MySQLConfName)).
+		WithArgs(userArgs...).
 		WithLifecycle(corev1ac.Lifecycle().
 			WithPreStop(corev1ac.LifecycleHandler().
 				WithExec(corev1ac.ExecAction().
-- 
2.43.0


From 42eb2bf672d4d462d888485e5ff4fde2652706a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:52 +0000
Subject: [PATCH 20/27] fix: restore a dump only with the binary logs that
 belong to it

---
 backup/restore.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..b7744e3 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -204,7 +204,7 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 	sort.Strings(keys)
 
 	var nearest time.Time
-	var nearestDump, nearestBinlog string
+	var nearestDump, nearestBinlog, lastBinlog string
 
 	for _, key := range keys {
 		isBinlog := strings.HasSuffix(key, constants.BinlogFilename)
@@ -223,15 +223,17 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 			break
 		}
 
+		// the binlog of a backup comes before its dump
 		if isBinlog {
-			nearestBinlog = key
+			lastBinlog = key
 			continue
 		}
 
 		nearestDump = key
 		nearest = bkt
-		if path.Dir(nearestDump) != path.Dir(nearestBinlog) {
-			nearestBinlog = ""
+		nearestBinlog = ""
+		if path.Dir(nearestDump) == path.Dir(lastBinlog) {
+			nearestBinlog = lastBinlog
 		}
 	}
 
-- 
2.43.0


From c5a35d980962f270668e6d51d132ca9036554d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:52 +0000
Subject: [PATCH 21/27] fix: report a restoration that never got a good
 connection as failed

---
 cmd/moco-backup/cmd/restore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/moco-backup/cmd/restore.go b/cmd/moco-backup/cmd/restore.go
index 5d305c5..1cb6a3e 100644
--- a/cmd/moco-backup/cmd/restore.go
+++ b/cmd/moco-backup/cmd/restore.go
@@ -37,7 +37,7 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 			time.Sleep(1 * time.Second)
 		}
 
-		return nil
+		return backup.ErrBadConnection
 	},
 }
 
-- 
2.43.0


From b58fc743e70772fff320cdd679889fdb68f291be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:38 +0000
Subject: [PATCH 22/27] fix: store objects larger than 195 GiB in Azure Blob
 Storage

A block blob can have 50,000 blocks; blocks of 4 MiB made the upload of a
larger dump fail at its end.
---
 pkg/bucket/azure.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/bucket/azure.go b/pkg/bucket/azure.go
index e020cad..e2fac35 100644
--- a/pkg/bucket/azure.go
+++ b/pkg/bucket/azure.go
@@ -11,6 +11,14 @@ import (
 	"github.com/Azure/azure-sdk-for-go/sdk/storage/azblob/container"
 )
 
+const (
+	// azureBlockSize is the minimum block size used for Bucket.Put method.
+	azureBlockSize = 4 << 20
+
+	// azureUploadBlocks is the maximum number of blocks of an object of the estimated size.
+	azureUploadBlocks = 25000
+)
+
 type azureBucket struct {
 	name   string
 	client *azblob.Client
@@ -82,9 +90,13 @@ func (b *azureBucket) Put(ctx context.Context, key string, data io.Reader, objec
 		contentType = "application/zstd"
 	}
 
+	// A block blob can have up to 50,000 blocks.  Use larger blocks for large objects.
+	// As objectSize is an estimate, this leaves half of the blocks as a margin.
+	blockSize := max(azureBlockSize, (objectSize+azureUploadBlocks-1)/azureUploadBlocks)
+
 	// Upload the blob
 	_, err := b.client.UploadStream(ctx, b.name, key, data, &azblob.UploadStreamOptions{
-		BlockSize: 4 * 1024 * 1024, // 4 MiB blocks
+		BlockSize: blockSize,
 		Metadata:  map[string]*string{},
 		HTTPHeaders: &blob.HTTPHeaders{
 			BlobContentType: &contentType,
-- 
2.43.0


From 5aedb27faef7e25bff2fafc202f368afbdc7db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:56 +0000
Subject: [PATCH 23/27] fix: clean up old generated ConfigMaps also after a
 failed deletion

---
 controllers/mysqlcluster_controller.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 3f9ed8e..4879498 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -482,15 +482,15 @@ func (r *MySQLClusterReconciler) reconcileV1MyCnf(ctx context.Context, cluster *
 	}
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cmName}
-	if _, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap); err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return cm, nil
-		}
+	_, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap)
+	if err != nil && !errors.Is(err, ErrApplyConfigurationNotChanged) {
 		return nil, fmt.Errorf("failed to reconcile my.cnf configmap %s/%s: %w", cluster.Namespace, cmName, err)
 	}
+	if err == nil {
+		log.Info("reconciled my.cnf ConfigMap", "configMapName", cmName)
+	}
 
-	log.Info("reconciled my.cnf ConfigMap", "configMapName", cmName)
-
+	// An earlier clean-up may have failed, so do it even if the ConfigMap has not changed.
 	if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName); err != nil {
 		return nil, err
 	}
@@ -552,18 +552,19 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		}
 
 		key := client.ObjectKey{Namespace: cluster.Namespace, Name: cmName}
-		if _, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap); err != nil {
-			if errors.Is(err, ErrApplyConfigurationNotChanged) {
-				return cm, nil
-			}
+		_, err = apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap)
+		if err != nil && !errors.Is(err, ErrApplyConfigurationNotChanged) {
 			return nil, fmt.Errorf("failed to reconcile configmap %s/%s for slow logs: %w", cluster.Namespace, cmName, err)
 		}
+		if err == nil {
+			log.Info("reconciled ConfigMap for slow logs", "configMapName", cmName)
+		}
 
+		// An earlier clean-up may have failed, so do it even if the ConfigMap has not changed.
 		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix+".", cmName); err != nil {
 			return nil, err
 		}
 
-		log.Info("reconciled ConfigMap for slow logs", "configMapName", cmName)
 		return cm, nil
 	} else {
 		cms := &corev1.ConfigMapList{}
-- 
2.43.0


From e61ec21b5892a582d432c4eff695ae5505c789c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:28 +0000
Subject: [PATCH 24/27] fix: do not relax the PodDisruptionBudget when the
 backup CronJob cannot be read

---
 controllers/mysqlcluster_controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 4879498..5958327 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1054,6 +1054,8 @@ func (r *MySQLClusterReconciler) reconcileV1PDB(ctx context.Context, cluster *mo
 			if cj.Status.Active != nil {
 				backupCronJobIsRunning = true
 			}
+		} else if !apierrors.IsNotFound(err) {
+			return fmt.Errorf("failed to get CronJob %s/%s: %w", cluster.Namespace, cluster.BackupCronJobName(), err)
 		}
 	}
 
-- 
2.43.0


From 058bdadbf552f443443e1943bfc9dceaa09884ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:08 +0000
Subject: [PATCH 25/27] fix: report stopped clustering and reconciliation also
 after a restart of the controller

---
 controllers/mysqlcluster_controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 5958327..da9caf8 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1835,6 +1835,8 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
 
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
+		// the metric may have been lost with a restart of the controller.
+		metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
 		return nil
 	}
 
@@ -1871,6 +1873,8 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 	orig := cluster.DeepCopy()
 
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionReconciliationActive) {
+		// the metric may have been lost with a restart of the controller.
+		metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
 		return nil
 	}
 
-- 
2.43.0


From 119bca6cdadbaa2fd34bee2578bd42b81021d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:08 +0000
Subject: [PATCH 26/27] fix: delete all metrics of a MySQLCluster when it is
 finalized

---
 controllers/mysqlcluster_controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index da9caf8..e20d5f2 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1750,6 +1750,10 @@ func (r *MySQLClusterReconciler) finalizeV1(ctx context.Context, cluster *mocov1
 	metrics.CurrentReplicasVec.DeleteLabelValues(cluster.Name, cluster.Namespace)
 	metrics.UpdatedReplicasVec.DeleteLabelValues(cluster.Name, cluster.Namespace)
 	metrics.LastPartitionUpdatedVec.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.VolumeResizedTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.VolumeResizedErrorTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.StatefulSetRecreateTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.StatefulSetRecreateErrorTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
 
 	return nil
 }
-- 
2.43.0


From 83b2d59d1328280c0aa19a1c9dae44eeae533b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 27/27] fix: delete the metrics of a paused cluster when it is
 stopped

---
 clustering/manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/manager.go b/clustering/manager.go
index 9ea069f..092bf75 100644
--- a/clustering/manager.go
+++ b/clustering/manager.go
@@ -40,6 +40,7 @@ func NewClusterManager(interval time.Duration, m manager.Manager, opf dbop.Opera
 		interval:  interval,
 		log:       log,
 		processes: make(map[string]*managerProcess),
+		paused:    make(map[string]*managerProcess),
 	}
 }
 
@@ -56,6 +57,7 @@ type clusterManager struct {
 
 	mu        sync.Mutex
 	processes map[string]*managerProcess
+	paused    map[string]*managerProcess // paused ones whose metrics are kept
 	stopped   bool
 
 	wg sync.WaitGroup
@@ -94,6 +96,7 @@ func (m *clusterManager) update(name types.NamespacedName, noStart bool, origin
 		p.Start(ctx, m.log.WithName(key), m.interval)
 	})
 	m.processes[key] = p
+	delete(m.paused, key)
 	p.Update(origin)
 }
 
@@ -107,6 +110,10 @@ func (m *clusterManager) Stop(name types.NamespacedName) {
 		p.Cancel()
 		delete(m.processes, key)
 	}
+	if p, ok := m.paused[key]; ok {
+		p.deleteMetrics()
+		delete(m.paused, key)
+	}
 }
 
 func (m *clusterManager) StopAll() {
@@ -133,5 +140,6 @@ func (m *clusterManager) Pause(name types.NamespacedName) {
 	if ok {
 		p.Pause()
 		delete(m.processes, key)
+		m.paused[key] = p
 	}
 }
-- 
2.43.0

