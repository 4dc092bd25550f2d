HM = {
  "k8s.io/apimachinery/pkg/util/managedfields.ExtractInto": "hrec.ExtractInto",
  "k8s.io/apimachinery/pkg/util/naming.GetNameFromCallsite": "hrec.CallSite",
  "sigs.k8s.io/controller-runtime/pkg/client/apiutil.GVKForObject": "hrec.GVK",
  "k8s.io/client-go/applyconfigurations/internal.Parser": "hrec.Parser",
  "(*text/template.Template).Parse": "hrec.TemplateParse",
  "crypto/rand.Read": "hrec.RandRead",
  "text/template.New": "hrec.TemplateNew",
  "(*text/template.Template).Execute": "hrec.TemplateExecute",
  "k8s.io/apimachinery/pkg/runtime/serializer/yaml.NewDecodingSerializer": "hrec.NewYAML"}
RAPI = "the apiserver is an in-memory stand-in: server-side apply stores what was applied, managedfields.ExtractInto returns what the operator applied last (native replays use the real one), writes fail where faults are on"
RAS = [RAPI, "one reconciler works on a cluster at a time (controller-runtime guarantees it)"]
R = ["controllers/mysqlcluster_controller.go"]
ROUT = "the apiserver's own behaviour (defaulting, garbage collection, conflicts between field managers), concurrent edits in the middle of a pass"

P("P13", "A deleted cluster is released only after its secrets and certificate are gone",
  "While a MySQLCluster is being deleted, moco removes its finalizer only after clustering was stopped and the controller Secret and the Certificate of exactly this cluster were deleted from the system namespace; if any of this fails the finalizer stays and the next attempt finishes the job. "
  "Nothing is created for a cluster being deleted, nothing of another cluster and no other finalizer is removed, and a cluster that is not being deleted keeps its Secret, Certificate and finalizer. "
  "If the MySQLCluster is gone, clustering stops and nothing is written.",
  ["fault_sequences", "inputs"], "for every combination of what exists and every failing write or crash",
  "Tests delete one healthy cluster; leaking credentials or releasing too early needs a failure at a certain step.",
  R, [("finalizeV1 / Reconcile", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Finalize", "one cluster, secret/certificate/finalizer present or not, one failing write (of up to 4) and optionally all later ones, 2 passes", 60, None, None, ["released", "gone", "alive", "end"])],
  RAS, ROUT, models=HM)

P("P26", "The disruption budget always keeps a majority and blocks during backups",
  "After every successful reconciliation the PodDisruptionBudget of an online cluster with at least three replicas selects exactly the cluster's Pods and allows floor(replicas/2) of them to be unavailable, or none while a backup Job is running. "
  "An offline cluster and one with fewer than three replicas has no budget; if whether a backup runs cannot be read, the budget is not relaxed.",
  ["histories", "fault_sequences", "inputs"], "for every number of replicas up to 9, offline or not, and number of active backup Jobs, through changes of all of them",
  "Tests look at one or two sizes; a wrong budget for a size or after a change of mode lets a drain take the majority away.",
  R, [("reconcileV1PDB", "controllers/mysqlcluster_controller.go")],
  [H("hrec.PDB", "1..9 replicas, offline, backup policy, 0..2 active jobs; 2 passes with arbitrary changes in between, CronJobs readable or not", 60, None, {"passes": 3}, ["none", "backup", "budget", "unreadable", "end"], secs_thorough=900)],
  RAS, ROUT, models=HM)

P("P27", "Volumes are only ever enlarged, all of the cluster's and no others",
  "When the requested size of a volume claim template grows and its StorageClass allows it, every PersistentVolumeClaim of the cluster made from that template gets the new request, whether or not the cluster is offline or rolling; no claim's request is ever reduced, and claims of other templates, clusters and namespaces stay as they are. "
  "The StatefulSet is only ever deleted with its Pods orphaned, after the claims were handled, and exists again with the new template after the next successful pass; Pods and claims are never deleted. "
  "Exactly the configured label and annotation keys of a template are copied to its claims.",
  ["fault_sequences", "inputs"], "for every current and requested size, StatefulSet state and failing write or crash, followed by a retry",
  "Tests resize one template from one size to another without failures in between.",
  ["controllers/pvc.go", "controllers/mysqlcluster_controller.go"], [("reconcilePVC / resizePVCs", "controllers/pvc.go"), ("StatefulSet recreation", "controllers/mysqlcluster_controller.go reconcileV1StatefulSet")],
  [H("hrec.PVC", "2 replicas, 2 templates, sizes 1..4 Gi, ready count, one failing write (of up to 6) and optionally all later ones, 2 passes", 60, None, {"replicas": 3, "failmax": 8}, ["error", "expanded", "recreated", "end"], secs_thorough=1200),
   H("hrec.PVC", "the same with one failing read (of the first 30)", 90, {"reads": 1, "failmax": 30}, None, ["error", "expanded", "recreated", "end"], secs_thorough=1200),
   H("hrec.PVCSync", "1 claim; label/annotation absent, old or new; one failing write, 2 passes", 40, None, None, ["end"])],
  RAS, ROUT + "; sizes that are not whole Gi", models=HM)

P("P28", "Old generated ConfigMaps go oldest first; no other ConfigMap is ever deleted",
  "Besides the ConfigMap in use, reconciliation keeps the newest generated ConfigMaps up to the configured history limit and deletes the older ones; with the slow-log container disabled all of the slow-log agent's generated ConfigMaps are removed. "
  "The ConfigMaps that the StatefulSet refers to always exist; a failing write or deletion is made up for by the next pass. "
  "No ConfigMap of the user, of another namespace or of another cluster is deleted, even if its name begins with this cluster's.",
  ["fault_sequences", "inputs"], "for every history limit, age order, failing write and the names of neighbouring ConfigMaps",
  "Tests use one limit and lone clusters; deleting a ConfigMap that Pods still need only shows at their next restart.",
  R, [("reconcileV1MyCnf / reconcileV1FluentBitConfigMap / deleteOldConfigMaps", "controllers/mysqlcluster_controller.go")],
  [H("hrec.ConfigMaps", "my.cnf: 3 old ConfigMaps with arbitrary ages 0..9, limit 0..4", 60, {"slow": 0}, {"n": 4}, ["deleted", "end"], secs_thorough=900),
   H("hrec.ConfigMaps", "slow-log agent: the same, container on or off", 60, {"slow": 1}, {"n": 4}, ["deleted", "end", "disabled"], secs_thorough=900),
   H("hrec.ConfigMaps", "my.cnf: 2 old ConfigMaps, any one of the first 12 writes and deletions fails, then another pass", 90, {"slow": 0, "n": 2, "failmax": 12}, {"n": 3}, ["deleted", "failed", "end"], secs_thorough=900),
   H("hrec.ConfigMaps", "slow-log agent: the same", 90, {"slow": 1, "n": 2, "failmax": 12}, {"n": 3}, ["deleted", "failed", "end", "disabled"], secs_thorough=900)],
  RAS, ROUT, models=HM)

P("P29", "The stop annotations stop exactly reconciliation and clustering, and reversibly",
  "With reconciliation-stopped set to true nothing is applied or deleted and ReconciliationActive becomes false; otherwise the cluster is reconciled and it becomes true. "
  "With clustering-stopped set to true the clustering loop is paused on every pass (also if the status already says inactive), never started, and Available/Healthy turn Unknown; otherwise the loop is started and the conditions are left to it. "
  "Any other value of the annotations does not stop anything, and a failing status update is retried to the same end.",
  ["fault_sequences", "inputs"], "for every combination of annotation values, former conditions and failing writes",
  "Tests set and clear each annotation once on a fresh cluster.",
  R, [("Reconcile / clusteringStopped / updateReconciliationCondition", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Stopped", "fresh cluster, all annotation values and former conditions, one failing write of the first 2", 90, {"existing": 0}, {"failmax": 5}, ["stopped", "paused", "reconciled", "end"], secs_thorough=1200),
   H("hrec.Stopped", "existing cluster whose spec changed", 60, {"existing": 1}, {"failmax": 5}, ["stopped", "paused", "reconciled", "end"], secs_thorough=1200)],
  RAS, ROUT, models=HM)

P("P30", "Credentials are generated once, never change, and reach the user unaltered",
  "The controller Secret has a distinct generated password of at least 32 characters for each of the eight system users, is created at most once and never rewritten, also if writes fail or succeed while reporting an error; a malformed one is refused and nothing is derived from it. "
  "The user Secret and the my.cnf Secret always hold exactly these passwords, and the gRPC Secret exactly what cert-manager issued. "
  "The Certificate is created once, for the cluster's Pods only, and another cluster's Secrets and Certificates are not touched.",
  ["fault_sequences", "inputs"], "for every combination of what exists already and every failing or lost write",
  "Losing the passwords locks the operator out of running databases; it needs a failure between two writes.",
  ["controllers/mysqlcluster_controller.go", "pkg/password/mysql_password.go", "controllers/certificate.go"], [("reconcileV1Secret", "controllers/mysqlcluster_controller.go"), ("NewMySQLPassword / ToSecret / NewMySQLPasswordFromSecret", "pkg/password/mysql_password.go"), ("reconcileV1Certificate / reconcileV1GRPCSecret", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Credentials", "secret absent/present/malformed, certificate issued or not, one of the first 4 writes failing or lost, 2-3 passes", 60, None, {"failmax": 16}, ["issued", "created", "malformed", "end"], secs_thorough=600),
   H("hrec.Credentials", "the same with one of the first 12 reads failing", 60, {"reads": 1, "failmax": 12}, None, ["issued", "created", "malformed", "end"])],
  RAS + ["random bytes are a counter (distinct)"], ROUT, models=HM)

P("P33", "Services lead to the right Pods whatever the user's templates say",
  "The primary and replica Services select exactly the Pods of this cluster with that role and expose mysql 3306 and mysqlx 33060 by name exactly once; the headless Service selects all Pods, ready or not, and also exposes the admin port. "
  "Of the user's templates, type, annotations, labels, node ports and further ports are kept, but selector, cluster IP, and the number, protocol and target of moco's own ports are not theirs to change; removing the template restores the default.",
  ["inputs"], "for every combination of template fields, set and then removed",
  "Tests use two templates; a selector or port merged wrongly sends writes to replicas.",
  R, [("reconcileV1Service1", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Services", "primary template: every combination of 8 features", 60, {"which": 0}, None, ["end"]),
   H("hrec.Services", "replica template", 60, {"which": 1}, None, ["end"])],
  RAS, ROUT, models=HM)

P("P36", "Reconciliation survives a failure of any write and converges to the same state",
  "Whichever write of a reconciliation fails, reports failure although it took effect, or is the last before a crash, the pass returns an error, and the next undisturbed pass brings every owned object to exactly the state that an undisturbed first pass produces, with the reconciled generation recorded. "
  "A further pass writes nothing; a pass in which a read fails writes and deletes nothing but what an undisturbed pass would.",
  ["fault_sequences"], "for every failing write or read (each position of the pass), kind of failure, with and without the slow-log container",
  "Tests never fail a write in the middle of reconciliation; a step skipped after a partial failure stays skipped.",
  R, [("reconcileV1", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Converge", "a cluster that uses backup, restore, user my.cnf, exporter; each of the first 24 writes fails", 60, {"slow": 0}, None, ["failed", "end"]),
   H("hrec.Converge", "with the slow-log container", 60, {"slow": 1}, None, ["failed", "end"]),
   H("hrec.ReadFails", "a new cluster; each of the first 33 reads fails", 60, {"existing": 0, "max": 33}, None, ["failed", "end"]),
   H("hrec.ReadFails", "an existing cluster", 60, {"existing": 1, "max": 33}, None, ["failed", "end"])],
  RAS, ROUT, models=HM)

P("P37", "The conditions tell truthfully whether the cluster is reconciled and rolled out",
  "After every pass in which the MySQLCluster could be read, ReconcileSuccess is True for the current generation exactly if the pass succeeded and False otherwise. "
  "StatefulSetReady is True only if the StatefulSet's newest specification was observed, all of its replicas are available and no older revision remains, and then it is. "
  "A pass over an unchanged cluster does not rewrite the status.",
  ["fault_sequences", "inputs"], "for every status of the StatefulSet, former condition and failing read",
  "Users and other controllers wait for these conditions after a change; a stale True lets them go on too early, and needs particular figures in the StatefulSet's status.",
  R, [("updateStatus", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Conditions", "3 replicas; available 0..4, revisions and generations equal or not, other figures arbitrary; former conditions; one of 33 reads failing", 60, None, None, ["failed", "ready", "end"])],
  RAS, ROUT, models=HM)

P("P34", "The Pods of a cluster are what moco needs, with all that the user asked for",
  "For every admissible MySQLCluster the StatefulSet has the wanted number of replicas (zero when offline), each Pod runs mysqld on moco's my.cnf with the ports, probes and volumes moco relies on, the agent and the two init containers (in order, given this cluster's server ID base) and exactly the optional containers that are turned on, and every volume, ConfigMap, Secret and account it refers to exists. "
  "What the user gives in the Pod template (labels, affinity, volumes, containers, arguments, security context, grace period, overwritten resources) is kept, and the start-up probe waits as long as asked. "
  "Upgrading the operator with unchanged images, or a further pass, does not restart Pods.",
  ["inputs"], "for every combination of the fields of a MySQLCluster within the stated groups",
  "Tests look at a few templates; the combinations are what users deploy.",
  ["controllers/mysql_container.go", "controllers/mysqlcluster_controller.go"], [("reconcileV1StatefulSet", "controllers/mysqlcluster_controller.go"), ("makeV1MySQLDContainer / makeV1AgentContainer / makeInitContainer / updateContainerWithOverwriteContainers", "controllers/mysql_container.go")],
  [H("hrec.PodsNumbers", "replicas 1..99, 3 server ID bases, start-up wait -5..10^5 s, offline, forced update, own probes", 60, None, None, ["end"]),
   H("hrec.PodsContainers", "slow-log agent, 0..2 collectors, 0..2 further containers and init containers", 60, None, None, ["end"]),
   H("hrec.PodsOptions", "every option of the agent and moco-init", 60, None, None, ["end"]),
   H("hrec.PodsTemplate", "labels, affinity, volumes, arguments, grace period, Pod and container security contexts", 60, None, None, ["end"]),
   H("hrec.PodsOverwrite", "overwritten resources and security context of every system container, 2 entries", 60, None, None, ["end"]),
   H("hrec.PodsUpgrade", "new operator with other or the same images, slow-log agent and exporter turned on or off", 60, None, None, ["end", "slow", "unchanged"])],
  RAS, ROUT + "; fields of the Pod template that moco passes on without looking at them", models=HM)

P("P35", "Backup and restore jobs run as configured, and a restore runs only once",
  "A cluster with a backup policy has a CronJob with the policy's schedule, limits and job configuration that calls moco-backup for exactly this cluster and bucket with the backup user's password, and a Role for this cluster only; a change of the policy changes it, removing the policy removes it, and a policy that cannot be read is reported while backups go on. "
  "A cluster with a restore specification gets exactly one restore Job with the given source, time and schema, never retried and never made again once the restoration is recorded. "
  "Jobs of other clusters are left alone.",
  ["histories", "inputs"], "for every combination of job settings, policy changes and former state",
  "Tests use one policy; a restore Job made twice would load the dump over new data.",
  R, [("reconcileV1BackupJob / reconcileV1RestoreJob / bucketArgs", "controllers/mysqlcluster_controller.go")],
  [H("hrec.Backups", "every job setting on or off; policy changed, removed or missing in a second pass", 90, None, None, ["removed", "changed", "gone", "end"]),
   H("hrec.Restores", "every job setting on or off; Job existing, restoration recorded or not", 90, None, None, ["made", "end"])],
  RAS, ROUT, models=HM)

P("P40", "Whatever a cluster depends on wakes up exactly the clusters concerned",
  "Whenever a MySQLCluster's spec or annotations, an object moco made for it, its agent certificate, or the ConfigMap or BackupPolicy it names is created, changed or deleted, that cluster is reconciled, also if the event was missed and only the final state is known or if someone removed the labels of the object. "
  "Clusters of other names or namespaces that do not refer to the object are left alone. "
  "The StatefulSet and Pods that moco makes likewise wake up the roll-out, and a Pod that is deleted or marked for demotion wakes up the Pod watcher.",
  ["inputs", "histories"], "for every object a reconciliation makes, every kind of event, and every assignment of namespaces and references of two clusters",
  "Tests wait for a reconciliation that something else also triggers; a watch that is missing, filtered or mapped to the wrong cluster shows only as a change that is never acted upon.",
  R + ["controllers/partition_controller.go", "controllers/pod_watcher.go"],
  [("SetupWithManager", "controllers/mysqlcluster_controller.go"), ("SetupWithManager", "controllers/partition_controller.go"), ("SetupWithManager", "controllers/pod_watcher.go")],
  [H("hrec.Wake", "one cluster that uses backup, restore, user my.cnf, exporter, slow-log container; each object, create/update/delete/missed delete", 40, {"slow": 1}, None, ["certificate", "cluster", "object", "statefulset", "pod", "tampered"]),
   H("hrec.Refer", "2 clusters; namespaces and names of one letter of two, references set or not; events on ConfigMaps, BackupPolicies and Certificates", 60, {"clusters": 2}, {"clusters": 3}, ["woken", "end"], secs_thorough=600)],
  [RAPI, "informers deliver every event to the handlers that controller-runtime's real builder, sources, predicates and handlers register; the cache answers lists by the registered indexes without failing"],
  "the informers and queues of controller-runtime; events lost while the cache cannot be read",
  models={**HM, "sigs.k8s.io/controller-runtime/pkg/client/apiutil.GVKForObject": "hrec.WGVK",
    "(*k8s.io/apimachinery/pkg/runtime.Scheme).ObjectKinds": "hrec.ObjectKinds",
    "(*sigs.k8s.io/controller-runtime/pkg/internal/controller.Controller[request]).Watch": "hrec.Watch"})
