PR = "github.com/prometheus/client_golang/prometheus."
METM = {}
for k in ("Gauge", "Counter", "Histogram"):
    METM[PR + "New%sVec" % k] = "hmet.New%sVec" % k
    METM["(*" + PR + k + "Vec).WithLabelValues"] = "hmet.%sWithLabelValues" % k
    METM["(*" + PR + k + "Vec).With"] = "hmet.%sWith" % k
for k in ("DeleteLabelValues", "Delete", "DeletePartialMatch"):
    METM["(*" + PR + "MetricVec)." + k] = "hmet." + k

P("P39", "Metrics and events say what happened to exactly that cluster",
  "After every check or reconciliation the cluster's metrics agree with its state: each check, error, switchover, failover, volume resize and recreation is counted exactly once, the gauges equal the recorded conditions, numbers of instances, last backup and stop annotations (also after a controller restart), and events announce a switchover or failover with the new primary exactly when it happened and a warning when it failed; clones and the primary becoming writable are announced likewise. "
  "While clustering is stopped nothing is claimed about availability; when a cluster is gone none of its metrics remain. "
  "Metrics of other clusters, also of the same name in another namespace, are never touched.",
  ["inputs", "fault_sequences", "histories"], "for every state of the instances, request, failing step, size of the last backup and history of starts, stops, pauses, restarts and deletion",
  "Tests look at a few metrics after successful runs; alerts depend on them precisely when a step has failed, a controller was restarted or a cluster is paused.",
  ["clustering/process.go", "clustering/operations.go", "clustering/manager.go", "controllers/mysqlcluster_controller.go", "controllers/pvc.go", "controllers/partition_controller.go", "pkg/metrics/metrics.go"],
  [("do / updateStatus / Start", "clustering/process.go"), ("switchover / failover", "clustering/operations.go"), ("finalizeV1 / clusteringStopV1 / reconciliationStopV1", "controllers/mysqlcluster_controller.go"), ("Register", "pkg/metrics/metrics.go")],
  [H("hclu.Report", b("up or down, data and readiness of all instances; sizes of the last backup up to 2^44"), 40, {"n": 3, "mode1": 0, "exec": 1}, {"pmax": 2}, ["end", "failover", "backup"], secs_thorough=600),
   H("hclu.Report", b("any operation failing"), 40, {"n": 3, "mode1": 0, "faults": 1}, {"pmax": 2}, ["end", "failover", "error"], secs_thorough=600),
   H("hclu.Report", b("a switchover is requested, any operation failing, 2 iterations"), 40, {"n": 3, "mode0": 1, "mode1": 1, "faults": 1, "iters": 2}, {"pmax": 2}, ["end", "switchover", "switchover-failed", "error"], secs_thorough=600),
   H("hclu.Report", b("the primary is down, any operation failing, 2 iterations"), 40, {"n": 3, "mode0": 2, "mode1": 2, "faults": 1, "iters": 2}, {"pmax": 2}, ["end", "failover", "error"], secs_thorough=600),
   H("hclu.Report", "2 instances, offline", 20, {"n": 2, "mode0": 3, "mode1": 3, "faults": 1}, {"n": 3}, ["end"]),
   H("hclu.Report", "2 instances, the initial clone or a replica without data, any operation failing", 40, {"n": 2, "mode0": 4, "mode1": 5, "faults": 1}, {"n": 3}, ["end", "writable", "cloned", "clone-failed"], secs_thorough=600),
   H("hclu.Series", "2 clusters, 4 operations (start, stop, pause of either)", 40, {"ops": 4}, {"ops": 5}, ["end", "stop", "pause"], secs_thorough=600),
   H("hrec.Gauges", "2 settings of the annotations, restart, one failing write, deletion", 60, {"steps": 2}, {"steps": 3}, ["end", "restart"], secs_thorough=600),
   H("hrec.PVC", "volume resizes: 2 replicas, sizes 1..4 Gi, one failing write", 60, {"replicas": 2, "metrics": 1}, {"replicas": 3}, ["recreated", "not-recreated", "not-resized", "end"], secs_thorough=600),
   H("hpart.Partition", "2 Pods", 40, {"n": 2, "metrics": 1}, {"n": 3}, ["patched", "end"], secs_thorough=900),
  ], [MYSQLD, RAPI, "prometheus vectors are stand-ins that keep their series (native replays gather the real registry)", "a stopped or paused loop has ended before the next operation on the cluster"],
  "metrics of a check that ends after its loop was stopped and started again; values above 2^53; the agent's and exporter's metrics; the exact text of events", models={**HM, **METM})
