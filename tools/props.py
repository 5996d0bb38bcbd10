#!/usr/bin/env python3
"""Regenerates properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": False}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FI = ["inputs", "fault_sequences", "crash_points"]
p("C01", "Failover never loses transactions that reached a replica",
  "When a failover records a new primary, that instance is one of the reachable replicas without errant transactions, every reachable replica has stopped receiving from the old primary, the new primary has executed everything it received, and no other eligible replica has a transaction the new primary lacks. If any step of this fails, no new primary is recorded.",
  FI, "any number of instances, any combination of reachable/unreachable/errant replicas and transaction sets, and any operation failing at any point",
  "The tests run a three-instance and a five-instance mock with totally ordered transaction sets and no failing operation; the choice must be right for every combination of statuses and every failing step.",
  ["clustering/operations.go", "pkg/dbop/gtid.go"], [("failover", "clustering/operations.go"), ("FindTopRunner", "pkg/dbop/gtid.go")],
  ["status.currentPrimaryIndex of MySQLCluster", "STOP REPLICA IO_THREAD on the replicas"])
p("C02", "Switchover hands over only after the old primary is drained",
  "When a switchover records a new primary, the old primary has been made read-only and its client connections have been killed after that, and the new primary has executed every transaction the old primary had executed at that point. If any of these steps fails or times out, the primary stays what it was.",
  FI + ["schedules"], "any interleaving of a slow or failing read-only switch with the connection kill, any failing step, any transaction sets",
  "Tests cover one mock switchover where every operation succeeds at once; the slow path, the error paths and their order are not observable there.",
  ["clustering/operations.go"], [("switchover", "clustering/operations.go")],
  ["status.currentPrimaryIndex of MySQLCluster", "super_read_only and connections of the old primary"])
p("C03", "The cluster state is the documented function of what was observed",
  "The state of a cluster (Offline, Cloning, Restoring, Healthy, Degraded, Failed, Lost, Incomplete) is exactly the one the documentation defines for the observed pods and instances: in particular Healthy and Degraded imply a ready, writable (or, for an intermediate primary, read-only) primary that lost no data with at least half of the replicas attached to it, and Failed needs more than half of the replicas to hold data while the primary is gone or lost its data.",
  ["inputs", "configurations"], "every number of replicas, every combination of pod readiness, instance status, errant marks and cluster options",
  "The state tests list a few dozen hand-written status sets; the classification ranges over an unbounded product of per-instance conditions.",
  ["clustering/status.go"], [("DecideState", "clustering/status.go"), ("isHealthy, isDegraded, isFailed, isLost, isCloning, isRestoring", "clustering/status.go")],
  ["Healthy/Available conditions and their reason in status.conditions"])
p("C04", "A switchover target is always an eligible replica, the lowest one",
  "Whenever a cluster is Healthy or Degraded and a switchover is requested, the chosen target is the lowest-numbered replica that is reachable, read-only, attached to the current primary, free of errant transactions and whose pod is ready; the primary itself is never chosen. A switchover is requested exactly when the primary pod is being deleted or carries the demote mark and such a replica exists.",
  ["inputs", "configurations"], "every number of replicas and every combination of statuses, pod conditions and annotations",
  "Tests check a few clusters where all replicas are eligible or one is not.",
  ["clustering/status.go"], [("DecideState", "clustering/status.go"), ("needSwitch", "clustering/status.go")],
  ["index recorded by the following switchover"])
p("C05", "Errant replicas are exactly those with foreign transactions",
  "A reachable replica is treated as errant exactly when it has executed a transaction that the primary has not executed and that did not originate on the primary; when the primary is down or has no data, exactly the replicas recorded as errant before stay errant. An instance showing stuck semi-synchronous sessions while not primary is treated as unreachable.",
  ["inputs", "fault_sequences"], "any transaction sets and origins, any reachability, any recorded list",
  "Tests use one errant transaction in one replica; set and origin combinations, the unreachable primary and stale records are unbounded.",
  ["clustering/status.go"], [("GatherStatus", "clustering/status.go"), ("containErrantTransactions", "clustering/status.go")],
  ["status.errantReplicaList"])
p("C06", "Errant or misplaced instances are never offered to clients",
  "A pod is given the primary role only if it is the recorded primary and the replica role only if it is another instance without errant transactions, and only after its client connections were killed. After a successful configuration every pod has its right role or none, every reachable healthy instance has its role, and errant replicas neither carry a role nor receive replication.",
  FI, "any roles present beforehand, any errant/unreachable combination, any failing step",
  "Tests check label values in three-instance scenarios without failures.",
  ["clustering/operations.go"], [("removeRoleLabel, addRoleLabel", "clustering/operations.go"), ("configure", "clustering/operations.go"), ("configureReplica", "clustering/operations.go")],
  ["moco.cybozu.com/role label of the pods", "replication threads of errant replicas"])
p("C07", "Only one instance is ever made writable, after all others are read-only",
  "Configuring a cluster makes an instance writable only if it is the recorded primary of a cluster that does not replicate from outside, and only after every other reachable healthy instance is read-only, the primary has stopped receiving and has executed what it had received, and semi-synchronous replication is set up. After a successful configuration replicas and intermediate primaries are read-only and any other primary is writable.",
  FI, "any starting read-only flags, any replication state, any failing step",
  "Tests look at final flags of a few mock runs, not at the order of effects nor at failing steps.",
  ["clustering/operations.go"], [("configure", "clustering/operations.go"), ("configurePrimary, configureIntermediatePrimary, configureReplica", "clustering/operations.go")],
  ["read_only / super_read_only of the instances"])
p("C08", "The primary waits for acknowledgements from half of the replicas",
  "Before the primary of a replicated cluster becomes writable, semi-synchronous replication is enabled on it with a wait count of half the number of instances (rounded down), and it is re-enabled whenever the count differs; single-instance clusters and clusters replicating from outside do not use it. Replicas acknowledge exactly when the cluster does not replicate from outside.",
  ["inputs", "configurations", "fault_sequences"], "any number of instances, any previous settings, any failing step",
  "Tests see counts 1 and 2 in two scenarios.",
  ["clustering/operations.go"], [("configurePrimary", "clustering/operations.go"), ("configureReplica", "clustering/operations.go")],
  ["rpl_semi_sync settings on primary and replicas"])
p("C09", "Each cluster state permits only its documented operation",
  "In one maintenance pass, no instance is modified in states Offline, Restoring and Lost, nor in Healthy without a requested switchover; only a Failed cluster fails over, only a Healthy or Degraded one switches over (never while pod deletion is being prevented), only Degraded or Incomplete ones are reconfigured, and only a Cloning one is cloned from outside, onto its primary, and not while a clone is under way.",
  ["inputs", "configurations", "fault_sequences"], "any observed state and any failing step",
  "Tests walk through a few scripted state sequences.",
  ["clustering/process.go", "clustering/operations.go"], [("do", "clustering/process.go"), ("clone", "clustering/operations.go")],
  ["operations issued to mysqld and moco-agent"])
p("C10", "Replicas are re-pointed and overwritten only when that is safe",
  "A replica is attached only to the recorded primary, only if it is not errant, and only if the primary still holds every transaction the replica lacks; the primary itself is attached to a source only if the cluster replicates from outside. An instance's data is overwritten by cloning only if it is a reachable healthy replica without data and without replication while the primary has data, and the data comes from the primary.",
  FI, "any executed and purged transaction sets, any replication settings, any failing step",
  "Tests cover one clone and a few re-attachments without purged transactions.",
  ["clustering/operations.go"], [("configureReplica", "clustering/operations.go"), ("configureIntermediatePrimary", "clustering/operations.go")],
  ["CHANGE REPLICATION SOURCE and CLONE requests"])
p("C11", "Status conditions and counters reflect the state exactly",
  "Every published status is the function of the state the documentation defines: Initialized is false exactly in Cloning and Restoring, Available is true exactly in Healthy and Degraded, Healthy exactly in Healthy; the ready count is the number of ready pods, the errant list and count are those found, and cloning is recorded as done exactly once the cluster left Cloning.",
  ["inputs", "fault_sequences"], "any state, pods and errant list, with any number of conflicting updates",
  "Tests compare the conditions in the scripted states only.",
  ["clustering/process.go"], [("updateStatus", "clustering/process.go")],
  ["status of MySQLCluster"])
p("C12", "Pod deletion is blocked exactly while replication is delayed",
  "While some reachable replica lags behind by more than the configured limit (and a limit is set), the primary pod carries the prevent-delete mark and no switchover is started; when no replica does, no pod of the cluster keeps the mark.",
  ["inputs", "fault_sequences", "configurations"], "any delays, limits, marks present beforehand and failing updates",
  "Tests set one delay above the limit on one replica.",
  ["clustering/status.go", "clustering/operations.go", "clustering/process.go"], [("GatherStatus", "clustering/status.go"), ("addAnnPreventDelete, removeAnnPreventDelete", "clustering/operations.go")],
  ["moco.cybozu.com/prevent-delete annotation of pods"])
p("C17", "A rolling update proceeds one pod at a time and only when it is safe",
  "The update partition of a cluster's StatefulSet is only ever lowered, by one in a pass, and only when the latest specifications of the cluster and of the StatefulSet have been acted on and no forced update is requested. While pods remain to be updated it is lowered only if all pods exist and the next one (counted by ordinal, for any number of pods) is updated already, or every other pod is ready with all its containers, not terminating and updated from the partition on, and the cluster is Healthy unless the next pod itself is not ready.",
  ["inputs", "configurations", "fault_sequences"], "any number of pods, any combination of pod conditions, revisions, generations and failing API calls",
  "Tests use three pods and one defect at a time.",
  ["controllers/partition_controller.go"], [("Reconcile", "controllers/partition_controller.go"), ("isRolloutReady, areAllChildPodsRolloutReady, getSortedPodList", "controllers/partition_controller.go")],
  ["spec.updateStrategy.rollingUpdate.partition of the StatefulSet"])
p("C16", "A restoration loads the newest dump before the restore point and its own logs",
  "A restoration loads the newest full dump taken at or before the restore point, and then applies, up to the restore point, exactly the binary logs stored with that very dump; if there is no such dump the instance is left untouched. The restoration is finished and recorded as done only after all of this succeeded.",
  ["inputs", "fault_sequences", "crash_points"], "any set of stored objects, any restore point, any failing step",
  "Tests look up a handful of keys in one complete listing and never fail a step.",
  ["backup/restore.go", "backup/key.go"], [("FindNearestDump", "backup/restore.go"), ("Restore, loadDump, applyBinlog", "backup/restore.go")],
  ["data of the restored instance", "status.restoredTime"])
p("C14", "A backup is taken from a ready instance, with logs only if its identity is kept",
  "A backup is taken from a ready instance, a replica rather than the primary whenever a suitable replica is ready, and it fails only if no instance is ready. Binary logs are taken if and only if some ready instance still has the server UUID recorded for that same instance by the previous backup, and then only from such an instance, preferring the previous source unless it is the primary now.",
  ["inputs", "histories", "fault_sequences"], "any readiness of the instances, any identities, any previously recorded backup, any instance failing to answer",
  "Tests choose among three pods in a few combinations.",
  ["backup/backup.go"], [("ChoosePod, GetUUIDSet, getIdxsWithUnchangedUUID, podIsReady", "backup/backup.go"), ("Backup", "backup/backup.go")],
  ["the instance a dump is taken from"])
p("C15", "A recorded backup exists, is complete and describes what was dumped",
  "A backup is recorded only after the full dump was stored completely under the directory of the recorded time, and the recorded source, its server UUID, binary log position (read before the dump) and executed transactions are those of the dumped instance and dump. From the second backup on, the binary logs since the previous backup (from the recorded log of the same source, or the oldest log of another one, without the transactions of the previous backup) are stored completely in the directory of the previous backup, or the record carries a warning.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "any cluster and previous backup, any failing step, archive command or write conflict",
  "Tests run one backup with every step succeeding.",
  ["backup/backup.go", "backup/key.go", "pkg/bkop/binlog.go"], [("Backup, backupFull, backupBinlog", "backup/backup.go"), ("calcKey", "backup/key.go"), ("SortBinlogs", "pkg/bkop/binlog.go")],
  ["status.backup of the cluster", "objects in the bucket"])
P.sort(key=lambda x: x["id"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
