APISHIM = {"_shim/api.go": "api/v1beta2/zz_shim.go"}
AM = {"crypto/rand.Read": "hadm.RandRead", "k8s.io/apimachinery/pkg/api/errors.NewInvalid": "hadm.NewInvalid"}
AAS = ["the text of a refusal is not looked at (apierrors.NewInvalid is replaced)", "CRD schema validation by the apiserver comes on top and is not modelled"]
WT = ["api/v1beta2/mysqlcluster_types.go", "api/v1beta2/mysqlcluster_webhook.go"]

P("P14", "A rolling update touches one instance at a time and only when that is safe",
  "moco lowers the StatefulSet's partition by one only if the change is fully observed (cluster reconciled, StatefulSet observed), all Pods exist, every other Pod is ready for long enough with all its containers and not being deleted, all Pods at or above the partition run the new revision and the cluster is Healthy, unless the very next Pod itself is the one that is not ready. "
  "Otherwise it writes nothing and looks again later, also if the rate limit is used up or the StatefulSet changed in the meantime; if all this holds it does proceed, and a partition beyond the number of Pods counts down. "
  "Clusters updated by force and StatefulSets without a partition are left alone.",
  ["inputs", "schedules"], "for every partition, Pod states and revisions, order of Pods, condition and failing or overtaken write",
  "Tests roll one healthy cluster; unsafe combinations of Pod states, stale reads and odd partitions are not among them.",
  ["controllers/partition_controller.go"], [("Reconcile / isRolloutReady / patchNewPartition", "controllers/partition_controller.go")],
  [H("hpart.Partition", "3 Pods in 7 states and either revision, partition -2..4 (unset..replicas+1); arbitrary figures in both statuses; or one Pod too many", 150, {"n": 3, "order": 1, "over": 1}, {"over": 3}, ["patched", "next", "stray", "end"], secs_thorough=900),
   H("hpart.Partition", "1 Pod", 20, {"n": 1, "over": 2}, None, ["patched", "end"]),
   H("hpart.Partition", "5 Pods", 60, {"n": 5, "order": 0, "over": 0}, None, ["patched", "next", "end"], thorough_only=True, secs_thorough=3600)],
  ["one reconciler works on a StatefulSet at a time", "the patch carries the resourceVersion read and is refused on conflict as the apiserver does"],
  "more than 5 Pods (with 10 or more the Pods are sorted by name; noted in the code), the StatefulSet controller itself, wall-clock time")

P("P15", "Any change of a cluster's StatefulSet starts with every Pod held back",
  "Creating or updating the StatefulSet of a MySQLCluster sets its partition to the number of replicas, unless the update changes nothing but an already set partition. "
  "With force-rolling-update set to true the partition is removed, so all Pods are updated at once. "
  "StatefulSets not owned by exactly a moco MySQLCluster are not changed, and nothing but the partition ever is.",
  ["inputs"], "for every operation, owner, annotation, old and new partition, replicas and template",
  "Tests use single examples; the rule must hold for every combination of old and new specification.",
  ["api/v1beta2/statefulset_webhhok.go"], [("StatefulSetDefaulter.Default", "api/v1beta2/statefulset_webhhok.go")],
  [H("hpart.StsWebhook", "4 operations, replicas and partitions up to 5 or unset, template changed or not, 0..2 owners of several kinds", 60, None, None, ["not-mine", "forced", "only-partition", "held-back"])],
  ["JSON encoding and decoding are inverse (opaque tokens)"], "StatefulSet fields other than replicas, strategy, template image, owners and annotations")

P("P16", "Clusters that moco could not run are refused, and all others admitted",
  "A MySQLCluster is admitted, at creation and at update, exactly if its name has at most 40 characters, replicas is positive and odd, serverIDBase is positive, logRotationSize is not negative and logRotationSchedule is empty or a valid cron expression, a mysql-data claim template exists and every claim template requests storage, a mysqld container exists, containers and init containers have names, and no container, init container, volume or mysqld port uses a name or number that moco itself uses in the Pod. "
  "Names belonging to the slow-log and exporter containers are free when these are not used. "
  "Validation changes nothing.",
  ["inputs"], "for every value of the numbers, name length and position of the offending item; schedules from a list of valid and invalid ones",
  "Tests check one value on each side; a missing reserved name or a boundary only shows with that very value.",
  WT, [("validateCreate", "api/v1beta2/mysqlcluster_types.go"), ("ValidateCreate", "api/v1beta2/mysqlcluster_webhook.go")],
  [H("hadm.Numbers", "every int32/int64, name of 38..42 characters", 60, None, None, ["admitted", "refused", "end"], shims=APISHIM),
   H("hadm.Schedules", "25 cron expressions", 60, None, None, ["admitted", "refused", "end"], shims=APISHIM),
   H("hadm.Names", "all reserved names, other names and missing ones, at two positions; every port number", 60, None, None, ["admitted", "refused", "end"], shims=APISHIM)],
  AAS, "several offending items at once, cron expressions outside the list", models=AM)

P("P17", "Updates that would lose data or could not be carried out are refused",
  "An update of a MySQLCluster is refused if it lowers the number of replicas, adds or changes the replication source, changes the restore specification in any way, or enlarges a volume whose StorageClass (the default one if none is named) is missing, cannot be read, or does not allow expansion. "
  "Every other update that would be admitted at creation is admitted: adding replicas, removing the replication source, shrinking or adding volume claim templates; StorageClasses are only looked at if a volume grows.",
  ["inputs"], "for every old and new value and every set of StorageClasses and failing read",
  "Tests pick one example of each rule; the rules must hold for every pair of old and new specification.",
  WT, [("validateUpdate / validateVolumeExpansionSupported", "api/v1beta2/mysqlcluster_types.go")],
  [H("hadm.Update", "replicas -5..99, source and restore absent, same or different", 60, None, None, ["admitted", "refused", "end"], shims=APISHIM),
   H("hadm.Expand", "2 StorageClasses (default or not, expandable or not, missing), sizes 1..4 Gi, position of the template", 60, None, None, ["admitted", "refused", "end"], shims=APISHIM)],
  AAS, "sizes that are not whole Gi; more than two StorageClasses", models=AM)

P("P18", "A BackupPolicy in use cannot be deleted, and its schedule is always valid",
  "Deleting a BackupPolicy is refused exactly while a MySQLCluster of the same namespace refers to it, or if that cannot be found out. "
  "A BackupPolicy is admitted, at creation and update, exactly if its schedule is a valid cron expression.",
  ["inputs"], "for every set of up to 3 clusters in 2 namespaces with any policy name, and a list of valid and invalid schedules",
  "Tests use one cluster with one policy.",
  ["api/v1beta2/backuppolicy_webhook.go"], [("backupPolicyAdmission", "api/v1beta2/backuppolicy_webhook.go")],
  [H("hadm.PolicyDelete", "3 clusters, 2 namespaces, 4 policy names, failing List", 60, None, {"n": 4}, ["admitted", "refused", "end"], shims=APISHIM),
   H("hadm.Schedules", "25 cron expressions and the empty one", 60, {"policy": 1}, None, ["admitted", "refused", "end"], shims=APISHIM)],
  AAS, "cron expressions outside the list", models=AM)

P("P19", "Every cluster gets a finalizer and a positive, stable server ID base",
  "Defaulting adds moco's finalizer exactly once and keeps other finalizers. "
  "It sets serverIDBase to a positive number with room for all instances' IDs if it is zero, whatever the random source returns, and never changes one that is set; defaulting again changes nothing.",
  ["inputs"], "for every serverIDBase and every random bytes",
  "Random values cannot be sampled exhaustively; one overflow among 2^32 makes a cluster unusable.",
  ["api/v1beta2/mysqlcluster_webhook.go"], [("Default", "api/v1beta2/mysqlcluster_webhook.go")],
  [H("hadm.Default", "all 2^32 random values, all int32 bases, 3 lists of finalizers", 60, None, None, ["generated", "end"], shims=APISHIM)],
  AAS, "a failing random source", models=AM)

P("P31", "A Pod about to go away wakes up clustering for exactly its cluster",
  "When a Pod that is being deleted or carries the demote annotation belongs (via its StatefulSet) to a MySQLCluster, clustering of that cluster is told at once; a stopped loop is never started by this. "
  "Any other Pod causes nothing, nothing is ever written, and failures to read are reported for a retry.",
  ["inputs"], "for every Pod state, chain of owners and failing read",
  "Tests have one Pod with one chain of owners.",
  ["controllers/pod_watcher.go"], [("PodWatcher.Reconcile", "controllers/pod_watcher.go")],
  [H("hpart.Watcher", "10 kinds of owner for Pod and StatefulSet, StatefulSet present or not, up to one failing read", 60, None, None, ["woken", "end"])],
  [], "what controller-runtime does between event and Reconcile")
