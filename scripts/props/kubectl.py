KCS = {"_shim/kubectl.go": "cmd/kubectl-moco/cmd/zz_shim.go"}
P("P38", "kubectl moco changes exactly what it says, in the named cluster only",
  "Starting and stopping clustering or reconciliation sets or clears exactly that annotation of the named cluster, whatever else it holds or others write meanwhile; switchover demotes exactly the current primary, and refuses for a cluster without replicas. "
  "Credentials and the Pod to connect to are those of the named user, cluster and index (the current primary by default, never one that does not exist). "
  "A failing request is reported and leaves everything as it was.",
  ["inputs", "fault_sequences"], "for every state of the annotations, primary, replica count, index, user and failing or racing request",
  "The plugin has no tests; a wrong key or a whole-object update would undo what others wrote, or act on the wrong cluster.",
  ["cmd/kubectl-moco/cmd/start.go", "cmd/kubectl-moco/cmd/stop.go", "cmd/kubectl-moco/cmd/switchover.go", "cmd/kubectl-moco/cmd/credential.go", "cmd/kubectl-moco/cmd/common.go"],
  [("startClustering / startReconciliation", "cmd/kubectl-moco/cmd/start.go"), ("stopClustering / stopReconciliation", "cmd/kubectl-moco/cmd/stop.go"), ("switchover", "cmd/kubectl-moco/cmd/switchover.go"), ("fetchCredential", "cmd/kubectl-moco/cmd/credential.go"), ("getPodName", "cmd/kubectl-moco/cmd/common.go")],
  [H("hkc.Annotate", "2 commands, 2 annotations, 3 values each, failing read or write, another writer", 60, None, None, ["nothing", "done", "raced", "end"], shims=KCS),
   H("hkc.Switchover", "up to 5 replicas, every primary, annotation there or not, any failing request, another writer", 60, None, None, ["done", "raced", "end"], shims=KCS),
   H("hkc.Credential", "6 users, 3 formats, missing or malformed Secret, failing request", 60, None, None, ["given", "refused"], shims=KCS),
   H("hkc.Pod", "every index, up to 9 replicas, every primary", 60, None, None, ["primary", "index", "refused"], shims=KCS)],
  ["the API server is a stand-in with its patch semantics"],
  "the exec of 'kubectl moco mysql', flag parsing, completion",
  models={"fmt.Println": "hkc.Println", "fmt.Printf": "hkc.Printf", "fmt.Print": "hkc.Print", "(*os.File).Write": "hkc.FileWrite"})
