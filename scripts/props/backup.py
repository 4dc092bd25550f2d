# Backup and restore.
BKM = {k: "hbk." + v for k, v in {
  "os.MkdirAll": "MkdirAll", "os.RemoveAll": "RemoveAll", "os.Remove": "Remove", "os.ReadFile": "ReadFile",
  "path/filepath.WalkDir": "WalkDir", "os.Pipe": "Pipe", "(*os.File).Close": "FileClose", "(*os.File).Read": "FileRead",
  "os/exec.Command": "Command", "os/exec.CommandContext": "CommandContext", "(*os/exec.Cmd).Start": "Start", "(*os/exec.Cmd).Wait": "Wait",
  "(*os/exec.Cmd).Run": "Run", "k8s.io/client-go/tools/reference.GetReference": "GetReference"}.items()}
BKCM = {k: "hbkcmd." + v for k, v in {
  "sigs.k8s.io/controller-runtime/pkg/client.New": "NewClient", "sigs.k8s.io/controller-runtime/pkg/log/zap.New": "ZapNew",
  "k8s.io/apimachinery/pkg/runtime.NewScheme": "NewScheme", "github.com/cybozu-go/moco/pkg/bucket.NewS3Bucket": "NewS3Bucket"}.items()}
BKS = {"_shim/backup.go": "backup/zz_shim.go"}
BKCS = {"_shim/backup.go": "backup/zz_shim.go", "_shim/backupcmd.go": "cmd/moco-backup/cmd/zz_shim.go"}
BAS = ["mysqld, the bucket and the tar/zstd processes are stand-ins that fail where the harness says; a failing writer leaves a partial object",
       "the apiserver keeps times in whole seconds"]
BF = ["backup/backup.go", "backup/bucket.go", "backup/restore.go"]

P("P20", "Backups come from a ready instance, binary logs only from a known one",
  "A backup is dumped from a ready instance, a replica if there is one, and its binary logs are saved exactly if some ready instance still has the server UUID recorded at the last backup; the instance dumped last time is preferred if it is such a replica. "
  "The binary logs start at the file recorded last time if the source is the same and at the oldest file otherwise, leave out the transactions of the last dump, and are stored beside the last dump. "
  "The status then records source, UUIDs of the ready instances, binary log and GTID set of this dump, and a missing binary log is a warning.",
  ["inputs"], "for every readiness, role and identity of instances and every previous status",
  "Tests use a few fixed clusters; choosing a wrong instance loses transactions only with particular earlier failovers.",
  BF, [("ChoosePod", "backup/backup.go"), ("GetUUIDSet", "backup/backup.go"), ("Backup", "backup/backup.go")],
  [H("hbk.Source", "2 instances, 4 states each, identity same, new or unknown, every order of maps", 60, {"n": 2, "maporder": 2}, None, ["error", "same", "other", "full-only", "end"], shims=BKS),
   H("hbk.Source", "3 instances", 90, {"n": 3}, {"n": 4, "states": 1}, ["error", "same", "other", "full-only", "end"], shims=BKS, secs_thorough=600)],
  BAS, "that mysqlsh and mysqlbinlog do what their options say; that dump and recorded status are of the same moment", models=BKM)

P("P21", "A restore joins the nearest dump with the transactions following it",
  "Restoring to a point loads the latest dump that is not later than the point, of exactly the named cluster and namespace, and then replays only the binary logs stored beside that dump, up to the point in UTC. "
  "This holds after any history of failed and repeated backups, replaced instances and lost objects; without such a dump the restore fails before anything is changed.",
  ["histories", "inputs"], "for every set of stored objects and every point, and every history of two backups with any failure in each",
  "Tests have one backup in the bucket; the error is silent (wrong data) and depends on what earlier backups left behind.",
  BF, [("FindNearestDump", "backup/restore.go"), ("Restore", "backup/restore.go"), ("calcKey", "backup/bucket.go")],
  [H("hbk.Nearest", "3 backups, each with and without dump and binlog, other clusters and garbage; points just before, at and after", 60, {"n": 3}, {"n": 4}, ["none", "binlog", "end"], shims=BKS, secs_thorough=300),
   H("hbk.History", "2 backups, 7 outcomes each, primary and identities arbitrary", 60, {"k": 2}, {"k": 3}, ["backed-up", "failed", "binlog", "end"], shims=BKS, secs_thorough=1500),
   H("hbk.History", "the same with one lost object", 90, {"k": 2, "lose": 1}, None, ["backed-up", "failed", "binlog", "end"], shims=BKS)],
  BAS, "backups within one second of each other; more than 3 backups in a history; the content of the dump", models=BKM)

P("P22", "Backups and restores are recorded and reported only if all of it was done",
  "If any step of a backup but the binary logs fails, the command fails and the status of the last backup stays; if the binary logs fail, the backup is recorded with a warning. "
  "If any step of a restore fails, the command fails, connection trouble being retried from the start up to 3 times, and restoredTime is only set when dump and binary logs are loaded and the instance is super-read-only again. "
  "Conflicting status updates of others are kept, and working directory and connections are cleaned up.",
  ["fault_sequences"], "for every single failing step, conflicting update, late Pod and sequence of lost connections",
  "Tests fail one step; an unchecked error marks an incomplete backup or restore as complete.",
  BF + ["cmd/moco-backup/cmd/restore.go"], [("Backup", "backup/backup.go"), ("Restore", "backup/restore.go"), ("restoreCmd", "cmd/moco-backup/cmd/restore.go")],
  [H("hbk.Faults", "25 failures, first, same or other source", 60, None, None, ["failed", "end"], shims=BKS),
   H("hbk.RestoreFaults", "21 failures, with and without binlog, Pod, address and super-read-only late", 60, None, None, ["failed", "end"], shims=BKS),
   H("hbkcmd.Restore", "up to 4 lost connections, other failure", 60, None, None, ["connected", "gave-up", "end"], shims=BKCS)],
  BAS, "two failing steps at once; the process being killed", models={**BKM, **BKCM})

HDBM = {k: "hdb." + v for k, v in {
  "os.ReadDir": "ReadDir", "os.ReadFile": "ReadFile", "os.Environ": "Environ", "os.Pipe": "Pipe", "(*os.File).Close": "FileClose", "os/exec.Command": "Command",
  "os/exec.CommandContext": "CommandContext", "(*os/exec.Cmd).Start": "Start", "(*os/exec.Cmd).Wait": "Wait", "(*os/exec.Cmd).Run": "Run"}.items()}
HDBS = {"_shim/bkop.go": "pkg/bkop/zz_shim.go"}
HDBR = {"github.com/jmoiron/sqlx": "_sqlx"}
DAS = ["mysqld is a stand-in that understands the statements moco sends with MySQL's documented semantics (super_read_only implies read_only, RESET and CHANGE need stopped threads, semi-sync is negotiated when the IO thread starts); a failing statement has its effect or not",
       "sqlx is replaced by a stand-in that passes statements on"]

P("P25", "Each database operation does exactly what it promises or reports failure",
  "Making an instance writable first stops replication and discards relay logs and never leaves it writable while it replicates; making it read-only sets super_read_only and leaves replication alone; a replica is pointed to exactly the given source with auto-position, runs afterwards with semi-sync exactly if asked and is no semi-sync primary; a primary waits for exactly the given number of replicas without falling back to asynchronous replication. "
  "Killing connections spares moco's own users, local and system ones and kills all others; status, GTID comparison and waiting report what mysqld says. "
  "Any failing statement ends the operation with an error, and an instance whose address is unknown fails every operation.",
  ["inputs", "fault_sequences"], "for every previous state of the instance, argument, failing statement, and MySQL 8.0 and 8.4",
  "The tests of this package need real mysqld containers and try one state each; a wrong order of statements only matters when one of them fails.",
  ["pkg/dbop/replication.go", "pkg/dbop/status.go", "pkg/dbop/kill.go", "pkg/dbop/gtid.go", "pkg/dbop/operator.go", "pkg/dbop/nop.go"],
  [("SetReadOnly / ConfigureReplica / ConfigurePrimary", "pkg/dbop/replication.go"), ("KillConnections", "pkg/dbop/kill.go"), ("GetStatus", "pkg/dbop/status.go"), ("NewFactory", "pkg/dbop/operator.go")],
  [H("hdb.ReadOnly", "any state of replication and read-only, any failing statement, with or without its effect", 60, None, None, ["read-only", "writable", "end"], shims=HDBS),
   H("hdb.Replica", "the same, 4 versions, every port", 60, None, None, ["failed", "end"], shims=HDBS),
   H("hdb.Primary", "every count and timeout", 60, None, None, ["enabled", "end"], shims=HDBS),
   H("hdb.StopIO", "any state", 60, None, None, ["end"], shims=HDBS),
   H("hdb.GTIDs", "every timeout and answer", 60, None, None, ["wait", "end"], shims=HDBS),
   H("hdb.Kill", "2 connections, 13 users, 4 hosts, every ID, 4 outcomes of KILL", 90, {"n": 2}, {"n": 3}, ["killed", "end"], shims=HDBS, secs_thorough=900),
   H("hdb.Status", "any status, missing rows, any failing query", 60, None, None, ["failed", "end"], shims=HDBS),
   H("hdb.Factory", "IPv4, IPv6 and host names, unresolved", 60, None, None, ["unresolved", "end"], shims=HDBS)],
  DAS, "what mysqld really does with the statements; time-outs of the driver", models=HDBM, modreplace=HDBR)

P("P32", "Dump, binary log and load commands act on the right server and data",
  "A dump is taken of the given instance into the given directory without moco's users, and its GTID set is the one mysqlsh recorded in it; binary logs are fetched from the given file on without the excluded transactions; a load replaces the GTID set, writes no binary log and is limited to the chosen schemas and users. "
  "Binary logs are applied in numerical order, up to the point in UTC, and any of the commands failing is reported; the server is made writable for the restore and super-read-only after it.",
  ["inputs", "fault_sequences"], "for every failing command or statement, set of files around the change in length of the number, and option",
  "The tests need MySQL containers and use a couple of files; out-of-order binary logs or an ignored exit status corrupt the restored data silently.",
  ["pkg/bkop/backup.go", "pkg/bkop/restore.go", "pkg/bkop/binlog.go", "pkg/bkop/status.go", "pkg/bkop/gtid.go", "pkg/bkop/operator.go"],
  [("DumpFull / DumpBinlog", "pkg/bkop/backup.go"), ("LoadDump / LoadBinlog", "pkg/bkop/restore.go"), ("SortBinlogs", "pkg/bkop/binlog.go")],
  [H("hdb.Dump", "2 hosts, failing and missing commands, with and without schema and users", 60, None, None, ["dump", "binlog", "load", "list", "end"], shims=HDBS),
   H("hdb.Load", "6 sets of files, 5 failures", 60, None, None, ["failed", "end"], shims=HDBS),
   H("hdb.Executed", "8 contents of @.json", 60, None, None, ["end"], shims=HDBS),
   H("hdb.Prepare", "any state, any failing statement", 60, None, None, ["prepared", "finished", "end"], shims=HDBS),
   H("hdb.BkStatus", "3 versions, any failing query", 60, None, None, ["status", "end"], shims=HDBS),
   H("hdb.Sort", "3 names with numbers of 6 and 7 digits", 60, {"n": 3}, {"n": 4}, ["end"], shims=HDBS, secs_thorough=300)],
  DAS + ["mysqlsh, mysqlbinlog and mysql do what their options say"], "the contents of dumps", models=HDBM, modreplace=HDBR)

P("P24", "Backup objects are stored whole or not at all, whatever their size",
  "With S3, GCS and Azure alike, putting an object succeeds for every size up to 5 TiB and stores exactly the given data under the given key and bucket; if reading the data or storing it fails, this is reported and no partial object replaces what was there. "
  "Reading gives the data back or fails; listing gives all keys with the prefix, over any number of pages, or fails.",
  ["inputs", "fault_sequences"], "for every object size and estimate of it, failing read, upload or page",
  "Tests need emulators of the services and store kilobytes; limits on the number of parts only show with terabytes.",
  ["pkg/bucket/s3.go", "pkg/bucket/gcs.go", "pkg/bucket/azure.go"],
  [("decidePartSize", "pkg/bucket/s3.go"), ("Put / Get / List", "pkg/bucket/s3.go"), ("Put / List", "pkg/bucket/gcs.go"), ("Put / List", "pkg/bucket/azure.go")],
  [H("hbkt.Objects", "every size to 5 TiB, estimate exact, a sixteenth too low or (below 4 GiB) zero; data read in pieces of 1..3 bytes", 60, None, None, ["failed", "end"]),
   H("hbkt.List", "up to 5 keys in pages of 1..3", 60, {"n": 5}, {"n": 8}, ["failed", "end"], secs_thorough=300)],
  ["the clients of the storage services are replaced by stand-ins with the services' limits (S3: 10,000 parts of 5 MiB to 5 GiB; Azure: 50,000 blocks to 4000 MiB; GCS makes the object when the writer is closed)"],
  "the clients themselves, credentials, retries", models={"github.com/aws/aws-sdk-go-v2/config.LoadDefaultConfig": "hbkt.LoadDefaultConfig"},
  modreplace={"github.com/aws/aws-sdk-go-v2/service/s3": "_s3", "github.com/aws/aws-sdk-go-v2/feature/s3/manager": "_s3mgr",
              "github.com/Azure/azure-sdk-for-go/sdk/storage/azblob": "_azblob", "cloud.google.com/go/storage": "_gcs"})
