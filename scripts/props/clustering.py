MYSQLD = "mysqld and moco-agent are stand-ins with the documented effect of each operation: GTID sets are subsets of 4 transactions (one per instance UUID and one foreign), status values are arbitrary within the stated ranges"
API = "the apiserver is an in-memory stand-in; reads are consistent; writes can fail where faults are on"
W = ["clustering/process.go", "clustering/operations.go", "clustering/status.go", "clustering/manager.go"]
AS = [MYSQLD, API, "time does not pass except where the code sleeps", "one clustering loop runs (leader election works)"]
OUT = "clusters of more than 3 instances, more loop iterations than stated, concurrent edits by others in the middle of an iteration, MySQL's own behaviour"
b = lambda s: "3 instances, 1 loop iteration unless stated; " + s

P("P01", "Only the recorded primary is ever made writable, and only when it is safe",
  "The operator switches an instance to writable only if that instance is the primary recorded in the MySQLCluster status, the cluster is neither offline, cloning, restoring nor replicating from an external source, the instance did not lose its data, every other reachable non-errant replica is already super-read-only, semi-synchronous replication with half of the instances as acknowledgers is on, and (for a former replica) its replication is stopped and everything it received is applied. "
  "When nothing fails, a working primary does become writable and every other reachable non-errant replica ends up super-read-only. "
  "The recorded primary only changes when the old one is down, has lost its data, or is super-read-only.",
  ["histories", "fault_sequences", "inputs"], "for every combination of instance states, failing operations and up to 3 loop iterations with crashes in between",
  "The tests use a handful of scripted clusters with fake mysqld; a second writer needs a particular combination of modes, reachability and failing steps.",
  W, [("configure order: primary read-only, replicas read-only, then writable", "clustering/operations.go configure/configurePrimary/configureReplica")],
  [H("hclu.Writer", b("up/down, read-only modes, GTID sets, replication state of all instances"), 60, {"n": 3}, {"pmax": 2}, ["end", "writable"]),
   H("hclu.Writer", b("as above with any operation failing"), 40, {"n": 3, "faults": 1, "iters": 2}, None, ["end", "writable"], secs_thorough=900),
   H("hclu.Writer", b("3 iterations, the primary down or up, ready or not between them"), 30, {"n": 3, "iters": 3}, {"flip": 1}, ["end", "writable"]),
   H("hclu.Writer", b("2 iterations with demotion requests"), 30, {"n": 3, "iters": 2, "demote": 1}, {"flip": 1, "sess": 1}, ["end", "writable"]),
   H("hclu.Writer", b("2 iterations, any instance down or up in between"), 30, {"n": 3, "iters": 2, "flip": 1}, None, ["end", "writable"]),
   H("hclu.Writer", b("the cluster replicates from an external source"), 40, {"n": 3, "intermediate": 1}, None, ["end"]),
   H("hclu.Writer", b("the cluster is being restored or was restored"), 40, {"n": 2, "restore": 1}, {"n": 3}, ["end", "writable"]),
   H("hclu.Writer", b("semi-synchronous settings arbitrary"), 40, {"n": 3, "semi": 1}, {"pmax": 2}, ["end", "writable"]),
   H("hclu.Writer", b("the primary used to replicate from elsewhere and receives transactions until its IO thread stops"), 40, {"n": 3, "grow": 1}, {"pmax": 2}, ["end", "writable"]),
   H("hclu.Writer", b("single instance"), 20, {"n": 1}, None, ["end", "writable"]),
   H("hclu.Writer", b("readiness and waiting semi-sync sessions arbitrary"), 90, {"n": 3, "ready": 1, "sess": 1}, {"pmax": 2}, ["end", "writable"], thorough_only=True),
   H("hclu.Writer", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1}, {"pmax": 4}, ["end", "writable"], secs_thorough=600),
  ], AS, OUT)

P("P02", "Switchover moves the primary only on request and without losing a transaction",
  "While the primary is reachable, the recorded primary changes only if its Pod is being deleted or carries the demote annotation, the cluster is Healthy or Degraded and replication is not delayed beyond the configured limit; then the lowest-numbered ready, running, read-only, non-errant replica of it is chosen. "
  "Before the change is recorded the old primary is super-read-only, connections to it were killed after that, and the new primary has executed every transaction the old one has. "
  "If no step fails and there is such a replica, a requested switchover happens and the demote annotation is cleared after it (not before); if any step fails, the recorded primary does not change.",
  ["fault_sequences", "inputs", "schedules"], "for every replica state, every transaction committing until read-only takes effect, and every failing or slow step",
  "Tests run the switchover on healthy clusters with fixed data; losing a transaction needs commits between reading the GTID set and read-only, or a failure at a certain step.",
  W, [("switchover", "clustering/operations.go"), ("needSwitch / candidates", "clustering/status.go")],
  [H("hclu.Switchover", b("replica states, GTID sets, late commits; any operation failing"), 60, {"n": 3, "faults": 1}, {"pmax": 2}, ["end", "switchover"]),
   H("hclu.Switchover", b("setting read-only may exceed the time limit"), 30, {"n": 3, "slow": 1}, {"pmax": 2}, ["end", "switchover"]),
   H("hclu.Switchover", b("replication delay and limit arbitrary"), 40, {"n": 3, "behind": 1}, {"pmax": 2}, ["end", "switchover"]),
   H("hclu.Switchover", b("waiting sessions and read-only modes of replicas arbitrary"), 80, {"n": 3, "sess": 1, "ro": 1, "pmax": 1}, {"pmax": 2}, ["end", "switchover"]),
   H("hclu.Switchover", b("up to two conflicting writes of the MySQLCluster"), 40, {"n": 3, "conflict": 1}, {"pmax": 2}, ["end", "switchover"]),
   H("hclu.Switchover", b("the cluster replicates from an external source; another Pod may be annotated"), 40, {"n": 3, "intermediate": 1, "other": 1}, {"pmax": 2}, ["end", "switchover"]),
   H("hclu.Switchover", b("single instance"), 20, {"n": 1}, None, ["end"]),
   H("hclu.Switchover", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1}, {"pmax": 4}, ["end", "switchover"], secs_thorough=600),
  ], AS, OUT)

P("P03", "Failover picks the most advanced replica of a majority and loses nothing",
  "When the primary is down or has lost its data, another instance becomes the recorded primary only if more than half of the instances are good replicas (running, replicating, with data, not errant), after the receiver thread of every running replica was stopped, and the chosen instance is running, not errant, has every transaction that any eligible replica received, and has executed all of it. "
  "If any step fails the recorded primary does not change; if none fails and the eligible replicas' data are comparable, the failover happens. "
  "A replica that still has sessions waiting for semi-synchronous acknowledgement counts as not running.",
  ["fault_sequences", "inputs"], "for every data, replication and reachability state of the replicas and every failing step",
  "Tests have three fixed GTID layouts; choosing a replica that misses a transaction needs a particular layout or transactions arriving while threads are stopped.",
  W, [("failover", "clustering/operations.go"), ("FindTopRunner", "pkg/dbop/gtid.go")],
  [H("hclu.Failover", b("all replica data/replication/reachability states; any operation failing"), 60, {"n": 3, "faults": 1}, {"pmax": 2}, ["end", "failover"]),
   H("hclu.Failover", b("primary is instance 1"), 40, {"n": 3, "faults": 0, "pmax": 1}, {"pmax": 2, "faults": 1}, ["end", "failover"]),
   H("hclu.Failover", "5 instances, one replica in an arbitrary state, the others good with arbitrary data", 90, {"n": 5, "faults": 0, "one": 1}, None, ["end", "failover"]),
   H("hclu.Failover", "5 instances", 40, {"n": 5, "faults": 0}, None, [], secs_thorough=1800, thorough_only=True),
  ], AS, OUT)

P("P04", "The reported cluster state is exactly the documented function of what was seen",
  "The Healthy/Available/Initialized conditions and their reasons are exactly the documented function of the observed instances: Offline, Cloning, Restoring, Healthy, Degraded, Failed, Lost or Incomplete as defined, with Healthy only if every instance is ready, the primary is in the right mode and all replicas are connected, read-only, not errant replicas of it. "
  "Failed (failover possible) is reported exactly if the primary is down or lost its data and a strict majority of all instances are good replicas; Lost if there is no such majority. "
  "Available is true exactly in Healthy and Degraded, Initialized is false exactly while cloning or restoring.",
  ["inputs"], "for every combination of instance states, readiness, GTID sets and specification",
  "Tests cover a few dozen hand-written clusters of the very large space of instance states.",
  W + ["docs/clustering.md"], [("state classification", "clustering/status.go"), ("condition update", "clustering/process.go")],
  [H("hclu.Classify", b("working primary"), 100, {"n": 3, "mode0": 0, "mode1": 0}, {"pmax": 2}, ["end", "state-Healthy", "state-Degraded", "state-Incomplete"]),
   H("hclu.Classify", b("primary down or without data"), 60, {"n": 3, "mode0": 5, "mode1": 5}, {"pmax": 2}, ["end", "state-Failed", "state-Lost"]),
   H("hclu.Classify", b("external source, offline, restoring, restored"), 60, {"n": 3, "mode0": 1, "mode1": 4}, {"pmax": 2}, ["end", "state-Cloning", "state-Offline", "state-Restoring"]),
   H("hclu.Classify", b("single instance"), 20, {"n": 1}, None, ["end"]),
   H("hclu.Classify", "5 instances, each up or down, errant or not (GTID sets arbitrary when thorough)", 30, {"n": 5, "mode0": 6, "mode1": 6}, {"exec": 1}, ["end", "state-Failed", "state-Lost", "state-Degraded"], secs_thorough=600),
  ], AS, OUT)

P("P05", "Hands off: offline, restoring, incomplete or lost clusters are not touched",
  "While the cluster is offline, is being restored, has fewer Pods than replicas, or has lost its primary without a majority of good replicas, one pass of the clustering loop performs no operation that changes an instance, a role label or the recorded primary, whatever the instances look like. "
  "The pass also completes without crashing.",
  ["inputs", "histories"], "for every instance state, demotion request and number of missing Pods",
  "Tests do not combine these states with arbitrary instance states or missing Pods.",
  W, [("do", "clustering/process.go"), ("isComplete", "clustering/process.go")],
  [H("hclu.Quiet", b("offline, restoring, Lost, Pod missing, offline with fewer Pods"), 60, {"n": 3, "pmax": 2}, {"role": 1}, ["end", "mutation"]),
   H("hclu.Quiet", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1}, {"pmax": 4}, ["end"], secs_thorough=600),
  ], AS, OUT)

P("P06", "Replicas with errant transactions are fenced",
  "A replica that has transactions the primary does not have (other than the primary's own) is recorded as errant, and until it is repaired it is never connected to the primary, overwritten by a clone, made writable, chosen as the primary or given a role label. "
  "When the loop configures the cluster it removes such a replica's role label and stops its replication. "
  "The errant list and count in the status name exactly the errant replicas; while the primary's data is unavailable the recorded list is kept.",
  ["inputs", "histories", "fault_sequences"], "for every GTID layout, recorded errant list, reachability and label state",
  "Tests create one errant replica in one way.",
  W, [("checkErrant / recorded list", "clustering/status.go"), ("removeRoleLabel, stop replication", "clustering/operations.go")],
  [H("hclu.Errant", b("GTID sets and replication states"), 40, {"n": 3}, {"pmax": 2}, ["end"]),
   H("hclu.Errant", b("the primary may be down or empty"), 40, {"n": 3, "primary-down": 1}, {"pmax": 2}, ["end", "new-primary"]),
   H("hclu.Errant", b("a switchover is requested; readiness arbitrary"), 40, {"n": 3, "demote": 1, "ready": 1}, {"pmax": 2}, ["end", "new-primary"]),
   H("hclu.Errant", b("2 iterations"), 30, {"n": 3, "iters": 2}, {"pmax": 2}, ["end"]),
   H("hclu.Errant", b("own transactions of the primary mixed with foreign ones in either order"), 80, {"n": 3, "mix": 1}, {"role": 1}, ["end"]),
   H("hclu.Errant", b("role labels arbitrary"), 40, {"n": 3, "role": 1}, {"ro": 1}, ["end"]),
   H("hclu.Errant", b("any operation failing"), 40, {"n": 3, "faults": 1}, None, ["end"], thorough_only=True, secs_thorough=1200),
   H("hclu.Errant", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1}, {"pmax": 4}, ["end"], secs_thorough=600),
  ], AS, OUT)

P("P07", "Role labels send clients to the right instances only",
  "A Pod is labelled primary only if it is the recorded primary and no other Pod is so labelled, and labelled replica only if it is running, is not the primary and is super-read-only; errant replicas have no role. "
  "A stale role is removed before connections to the instance are killed, and connections are killed before a new role is set. "
  "After an undisturbed pass that configures the cluster, the primary is labelled primary and every running non-errant replica is labelled replica; other labels are untouched.",
  ["inputs", "histories", "fault_sequences"], "for every existing labelling, read-only mode, reachability and failing step",
  "Tests check labels on a freshly built cluster; wrong routing needs stale labels in a particular combination.",
  W, [("addRoleLabel/removeRoleLabel", "clustering/operations.go")],
  [H("hclu.Roles", b("existing labels and reachability"), 30, {"n": 3, "pmax": 1}, {"pmax": 2}, ["end", "label"]),
   H("hclu.Roles", b("the primary may be down"), 30, {"n": 3, "primary-down": 1}, {"pmax": 2}, ["end", "label"]),
   H("hclu.Roles", b("GTID sets arbitrary"), 40, {"n": 3, "exec": 1}, {"pmax": 2}, ["end", "label"]),
   H("hclu.Roles", b("read-only modes and replication arbitrary"), 40, {"n": 3, "ro": 1, "repl": 1}, {"pmax": 2}, ["end", "label"]),
   H("hclu.Roles", b("waiting sessions arbitrary; external source"), 30, {"n": 3, "sess": 1, "intermediate": 1}, {"pmax": 2}, ["end", "label"]),
   H("hclu.Roles", b("any operation failing"), 40, {"n": 3, "faults": 1}, {"pmax": 2}, ["end", "label"]),
   H("hclu.Roles", b("single instance"), 20, {"n": 1}, None, ["end", "label"]),
   H("hclu.Roles", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1, "exec": 1}, {"pmax": 4}, ["end", "label"], secs_thorough=600),
  ], AS, OUT)

P("P08", "Replicas are provisioned only by safe clones and replicate from the primary",
  "Data is cloned into an instance only if it is an empty non-primary that does not replicate, is super-read-only, and the primary has data, and the clone comes from the primary with the donor credentials; replication is set up only from the primary (only the primary replicates from a given external source, asynchronously), on an instance that is super-read-only, and never if the primary has purged transactions the instance lacks. "
  "The primary's semi-synchronous wait count is half of the instances. "
  "After an undisturbed configuring pass every running non-errant replica with usable history replicates from the primary, semi-synchronously unless the source is external, and empty instances have been cloned into.",
  ["inputs", "fault_sequences"], "for every GTID/purged/replication/semi-sync state of every instance",
  "Tests provision fresh clusters only.",
  W, [("configureReplica / configurePrimary / configureIntermediatePrimary", "clustering/operations.go")],
  [H("hclu.Replication", b("GTID sets, replication, semi-sync settings"), 40, {"n": 3, "fresh": 1}, {"pmax": 2}, ["end", "clone", "replicate", "semi"]),
   H("hclu.Replication", b("purged transactions arbitrary"), 40, {"n": 3, "fresh": 1, "purged": 1}, {"pmax": 2}, ["end", "clone", "replicate"]),
   H("hclu.Replication", b("external source"), 40, {"n": 3, "intermediate": 1}, {"pmax": 2}, ["end", "external", "replicate"]),
   H("hclu.Replication", b("address of the donor missing or unspecified"), 40, {"n": 3, "ip": 1, "fresh": 1}, None, ["end", "clone"]),
   H("hclu.Replication", b("read-only modes arbitrary"), 60, {"n": 3, "ro": 1, "fresh": 1}, {"pmax": 2}, ["end", "clone"]),
   H("hclu.Replication", b("any operation failing"), 40, {"n": 2, "faults": 1, "fresh": 1}, {"n": 3}, ["end", "clone"], secs_thorough=1200),
   H("hclu.Replication", b("relay logs arbitrary"), 100, {"n": 3, "retr": 1}, None, ["end"], thorough_only=True),
   H("hclu.Replication", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1, "fresh": 1}, {"pmax": 4}, ["end", "clone", "replicate"], secs_thorough=600),
  ], AS, OUT)

P("P09", "Deletion of the primary is held back exactly while replication is delayed",
  "The annotation that prevents deletion of a Pod is put on the primary (and only there) exactly while a limit is configured and some reachable replica is behind by more than it, and is removed from every Pod when no replica is. "
  "No switchover happens while replication is delayed, and other annotations are kept.",
  ["inputs", "fault_sequences"], "for every delay, limit, reachability and existing annotation",
  "Tests use one delayed replica and fixed numbers.",
  W + ["controllers/mysqlcluster_controller.go"], [("isDelayed / addAnnPreventDelete / removeAnnPreventDelete", "clustering/process.go, clustering/operations.go")],
  [H("hclu.Prevent", b("delays 0..100 s, limits 0..50 s, annotations arbitrary"), 40, {"n": 3, "pmax": 1}, {"pmax": 2}, ["end", "annotation"]),
   H("hclu.Prevent", b("a switchover is requested"), 40, {"n": 3, "demote": 1}, {"pmax": 2}, ["end", "annotation"]),
   H("hclu.Prevent", b("the primary may be down"), 40, {"n": 3, "primary-down": 1}, {"pmax": 2}, ["end", "annotation"]),
   H("hclu.Prevent", b("any operation failing"), 40, {"n": 3, "faults": 1}, {"pmax": 2}, ["end", "annotation"]),
   H("hclu.Prevent", "5 instances, the primary and one replica in an arbitrary state", 60, {"n": 5, "one": 1}, {"pmax": 4}, ["end", "annotation"], secs_thorough=600),
  ], AS, OUT)

P("P10", "Cloning from an external source happens once, from the given source, first",
  "In a cluster with an external replication source the primary is cloned into only while it is running and empty or its previous clone failed, never again after completion was recorded, and only with the complete address and credentials of the given Secret. "
  "Until that clone is complete nothing else is done to any instance; afterwards the primary stays super-read-only and replicates from the source, and no instance is ever made writable. "
  "Completion is recorded in the status only when the data has arrived, and is never taken back.",
  ["inputs", "histories", "fault_sequences"], "for every clone state, data, reachability, and content of the Secret",
  "Tests clone once into a fresh cluster with a well-formed Secret.",
  W, [("clone / isCloning", "clustering/operations.go, clustering/status.go")],
  [H("hclu.InitialClone", b("clone states, data, modes of the primary"), 60, {"n": 3}, {"pmax": 2}, ["end", "clone"]),
   H("hclu.InitialClone", b("2 instances; a key of the Secret missing"), 40, {"n": 2, "badkeys": 6}, {"n": 3}, ["end", "clone"]),
   H("hclu.InitialClone", b("2 instances; malformed ports"), 30, {"n": 2, "ports": 1}, {"n": 3}, ["end", "clone"]),
   H("hclu.InitialClone", b("1 instance, 2 iterations, any operation failing"), 40, {"n": 1, "faults": 1, "iters": 2}, {"n": 2}, ["end", "clone"]),
   H("hclu.Classify", b("recorded completion against the observed clone state"), 40, {"n": 3, "mode0": 1, "mode1": 2}, {"pmax": 2}, ["end", "state-Cloning"]),
  ], AS, OUT)

P("P23", "my.cnf: MOCO's settings win, user options are effective, output is stable",
  "For whatever option a user puts in the my.cnf ConfigMap, under any spelling with dashes, underscores or a loose prefix, options MOCO forces keep MOCO's value and appear once, and the options that switch off or move the binary and error logs never appear. "
  "Every other user option is effective (it is the last one with that name), the remaining defaults stay, the buffer pool is 70% of the memory in whole MiB but at least 128 MiB. "
  "The same input always gives the same output.",
  ["inputs", "schedules"], "for every option name up to the stated length and every spelling of the forced ones, every memory size up to 2^50, every map iteration order",
  "Tests try a few names in one spelling; map order is random per run.",
  ["pkg/mycnf/generator.go", "pkg/mycnf/params.go"], [("Generate", "pkg/mycnf/generator.go")],
  [H("hmycnf.Forced", "every option MOCO sets, drops or defaults, every dash/underscore/loose spelling", 40, None, None, ["forced", "dropped", "effective"]),
   H("hmycnf.ForcedOptions", "one arbitrary option name of 1..9 characters", 60, {"lo": 1, "hi": 9}, {"hi": 24}, ["effective"]),
   H("hmycnf.Deterministic", "two arbitrary names of 1..2 characters with optional loose prefix, every iteration order of maps of up to 3 entries", 60, {"lo": 1, "hi": 2}, {"hi": 4}, ["end"], secs_thorough=900),
   H("hmycnfp.Buffer", "memory sizes 0..2^50", 20, {"bits": 50}, None, ["end", "big"], shims={"_shim/mycnf.go": "pkg/mycnf/zz_shim.go"}),
  ], ["option names are lower-case letters, dashes and underscores"], "names with other characters, more than two user options at once, the meaning MySQL gives to options")

P("P11", "Clustering loops start, wake up and end exactly as asked",
  "A cluster is checked after every wake-up (even one that arrives while a check is in progress) and once per interval, also when earlier checks failed; a wake-up that must not start a loop never starts one, and loops of different clusters (including the same name in another namespace) do not affect each other. "
  "After Stop or Pause has returned the check in progress has been told to end and no other check with a live context begins until the loop is started again. "
  "StopAll returns only after every check has ended, and nothing is checked after that.",
  ["schedules", "histories"], "for every sequence of wake-ups, stops and pauses, each arriving while the loop is idle or in the middle of a check",
  "Tests start and stop single loops; a lost wake-up or a check after a stop needs an event in the middle of a check, or a particular order of events.",
  ["clustering/manager.go", "clustering/process.go"], [("Update/UpdateNoStart/Stop/Pause/StopAll", "clustering/manager.go"), ("Start", "clustering/process.go")],
  [H("hclu.Lifecycle", "2 clusters, 4 operations (update, update without start, stop, pause, stop all, and a check that lasts across the next operations, ending on cancellation or not)", 60, {"ops": 4}, {"ops": 5}, ["end", "stop", "pause", "stopall-while-busy"], secs_thorough=600),
   H("hclu.Lifecycle", "3 operations with every schedule of at most 1 preemption at synchronisation points (2 operations and 2 preemptions when thorough)", 60, {"ops": 3, "sched": 1}, {"ops": 2}, ["end", "stop", "pause"], preempt=1, preempt_thorough=2, secs_thorough=900),
   H("hclu.Interval", "2 clusters, failing checks, stop or pause", 20, {}, None, ["end"]),
  ], ["checks are observed at their first read from the apiserver, which fails", "time passes only while everything waits", "goroutines are switched at synchronisation operations (the code has no unsynchronised shared data apart from pause, read after cancellation)"],
  "more than 2 clusters or more operations than stated; an operation of a stopped loop that ignores cancellation may overlap a restarted loop (documented limit)")

CTM = {k: "hcert." + v for k, v in {
  "os.ReadFile": "ReadFile", "os.Stat": "Stat", "crypto/x509.NewCertPool": "NewCertPool",
  "(*crypto/x509.CertPool).AppendCertsFromPEM": "AppendCertsFromPEM", "(*crypto/x509.CertPool).Clone": "Clone", "(*crypto/x509.CertPool).Equal": "Equal", "crypto/tls.LoadX509KeyPair": "LoadX509KeyPair", "crypto/tls.X509KeyPair": "X509KeyPair",
  "google.golang.org/grpc/credentials.NewTLS": "NewTLS", "google.golang.org/grpc.WithAuthority": "WithAuthority",
  "google.golang.org/grpc.WithTransportCredentials": "WithTransportCredentials", "google.golang.org/grpc.WithKeepaliveParams": "WithKeepaliveParams",
  "google.golang.org/grpc.NewClient": "NewClient"}.items()}
CTS = {"_shim/ctrlcmd.go": "cmd/moco-controller/cmd/zz_shim.go"}

P("P12", "Agents are reached at the right instance over TLS with current certificates",
  "A connection to moco-agent is made to the current Pod IP of exactly the named instance (no address is an error) at the agent port, verifies that instance's host name against the CA, and presents the client certificate, both from the certificate files loaded last. "
  "Changed files are taken over at every interval, CA, certificate and key together; while one is missing or does not fit, all stay as they were; the loop ends with its context. "
  "The server side requires a verified client certificate and accepts exactly those whose own common name is moco-controller.",
  ["histories", "inputs", "schedules"], "for every sequence of certificate file contents, every client name, every instance and state of its Pod, and connections made while certificates are replaced",
  "No unit test covers the certificates; a mistake shows when certificates are rotated months later, or never (a check that accepts too much).",
  ["pkg/cert/cert.go", "clustering/agent.go", "cmd/moco-controller/cmd/run.go"], [("Reloader", "pkg/cert/cert.go"), ("New", "clustering/agent.go"), ("Resolve", "cmd/moco-controller/cmd/run.go")],
  [H("hcert.Reload", "3 sets of files (each file missing or one of 3 versions, the CA any bundle of 3)", 60, {"steps": 2}, {"steps": 4}, ["refused", "reloaded", "kept", "end"], shims=CTS, secs_thorough=600),
   H("hcert.Together", "one replacement and two connections with every schedule of at most 2 preemptions at synchronisation points (3 when thorough)", 30, {}, None, ["end"], shims=CTS, preempt=2, preempt_thorough=3),
   H("hcert.Name", "names of 0, 14, 15 and 16 arbitrary printable characters; chains of 0 to 2 certificates", 30, {}, None, ["none", "accepted", "end"], shims=CTS),
   H("hcert.Dial", "2 clusters of 3 Pods; Pod present, absent, without address; reads failing; before and after a replacement", 30, {}, None, ["no-address", "end"], shims=CTS),
  ], ["crypto/tls and gRPC do what their configuration says (native replays make the connections for real)", "goroutines are switched at synchronisation operations"],
  "ca.crt without any certificate (the pool is then empty and connections fail); files changed between the reads of one check; data races", models=CTM)
