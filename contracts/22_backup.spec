# Backups: which instance is the source, what is stored and what is recorded.
pred ridx(bm) = bm.cluster.Status.CurrentPrimaryIndex
opaque pred readyPod(p) = exists(k, 0, len(p.Status.Conditions), p.Status.Conditions[k].Type == "Ready" && p.Status.Conditions[k].Status == "True" && forall(j, 0, k, p.Status.Conditions[j].Type != "Ready"))
pred lastB(bm) = bm.cluster.Status.Backup
pred firstTime(bm) = bm.cluster.Status.Backup.Time.IsZero()
# the identity of instance i recorded by the previous backup is the current one
pred sameID(bm, i) = has(bm.uuidSet, itoa(i)) && ite(len(bm.cluster.Status.Backup.UUIDSet) == 0, i == bm.cluster.Status.Backup.SourceIndex && bm.uuidSet[itoa(i)] == bm.cluster.Status.Backup.SourceUUID, has(bm.cluster.Status.Backup.UUIDSet, itoa(i)) && bm.uuidSet[itoa(i)] == bm.cluster.Status.Backup.UUIDSet[itoa(i)])
# the identity of the instance behind a host name, while a backup runs
logic hostOf(o ref) string
logic uuidAt(h string) string
extern bk.newOperator(host, port, user, password, threads) (op, err)
  props C14 C15
  ensures err == nil ==> (op != nil && hostOf(op) == host)
func (*bk.BackupManager).GetUUIDSet(bm, ctx, pods) (r, err)
  firm
  props C14 C15
  modifies bm.status, posOp, posLog, posUUID
  requires forall(i, 0, len(pods), pods[i] != nil)
  invariant forall(k, "string", has($m, k) ==> (k == itoa(atoi(k)) && 0 <= atoi(k) && atoi(k) < len(pods) && readyPod(pods[atoi(k)])))
  invariant forall(k, "string", has($m, k) ==> $m[k] == uuidAt(bm.cluster.PodHostname(atoi(k))))
  ensures [only ready instances are identified] err == nil ==> forall(k, "string", has(r, k) ==> (k == itoa(atoi(k)) && 0 <= atoi(k) && atoi(k) < len(pods) && readyPod(pods[atoi(k)])))
  ensures [an instance is identified by its own server UUID] err == nil ==> forall(k, "string", has(r, k) ==> r[k] == uuidAt(bm.cluster.PodHostname(atoi(k))))
func bk.podIsReady(pod) (r)
  helper
  props C14 C15
  reveal readyPod
  requires pod != nil
  invariant forall(j, 0, $i, pod.Status.Conditions[j].Type != "Ready")
  ensures r <==> readyPod(pod)
pred keptKey(current, last, k) = has(current, k) && has(last, k) && current[k] == last[k]
func bk.getIdxsWithUnchangedUUID(current, last) (r)
  helper
  props C14 C15
  requires forall(k, "string", has(current, k) ==> k == itoa(atoi(k)))
  invariant forall(j, 0, len($s), keptKey(current, last, itoa($s[j])))
  invariant forall(k, "string", (seen($v, k) && keptKey(current, last, k)) ==> contains($s, atoi(k)))
  ensures [the instances that kept their identity] forall(j, 0, len(r), keptKey(current, last, itoa(r[j])))
  ensures [all of them] forall(k, "string", keptKey(current, last, k) ==> contains(r, atoi(k)))
  ensures [ascending] forall(i, 0, len(r), forall(j, 0, len(r), i <= j ==> r[i] <= r[j]))
func (*bk.BackupManager).ChoosePod(bm, ctx, pods) (idx, binlog, err)
  firm
  props C14 C15
  modifies bm.warnings
  requires forall(i, 0, len(pods), pods[i] != nil)
  requires 0 <= ridx(bm) && ridx(bm) < len(pods)
  requires forall(k, "string", has(bm.uuidSet, k) ==> (k == itoa(atoi(k)) && 0 <= atoi(k) && atoi(k) < len(pods) && readyPod(pods[atoi(k)])))
  invariant {C14} forall(j, 0, $i, j == ridx(bm) || !readyPod(pods[j]))
  invariant forall(j, 0, len($s), sameID(bm, $s[j]))
  invariant {C14} forall(j, 0, $i, $s[j] == ridx(bm) || $s[j] != bm.cluster.Status.Backup.SourceIndex)
  invariant {C14} forall(j, 0, len($s), $s[j] != ridx(bm))
  invariant {C14} len($t) > 0 || forall(j, 0, $i, $s[j] == ridx(bm))
  invariant {C14} len($t) > 0 ==> forall(j, 0, $i, $s[j] == ridx(bm) || $t[0] <= $s[j])
  ensures {C15} [a backup without logs is explained unless it is the first] (err == nil && !binlog && !firstTime(bm)) ==> len(bm.warnings) > 0
  ensures {C15} (err == nil && binlog) ==> !firstTime(bm)
  ensures {C15} [the source is an instance] err == nil ==> (0 <= idx && idx < len(pods))
  ensures {C14} [the source is a ready pod] err == nil ==> (0 <= idx && idx < len(pods) && readyPod(pods[idx]))
  ensures {C14} [binary logs are taken only from an instance whose identity is unchanged] (err == nil && binlog) ==> sameID(bm, idx)
  ensures {C14} [the first backup and one without usable logs take no logs] (err == nil && firstTime(bm)) ==> !binlog
  ensures {C14} [without usable logs the primary is the source only if no replica is ready] (err == nil && !binlog && idx == ridx(bm)) ==> forall(j, 0, len(pods), j == ridx(bm) || !readyPod(pods[j]))
  ensures {C14} [it fails only if no pod is ready] err != nil ==> forall(j, 0, len(pods), !readyPod(pods[j]))
  ensures {C14} [logs are taken whenever an instance has kept its identity] (err == nil && !firstTime(bm) && !binlog) ==> forall(j, 0, len(pods), !sameID(bm, j))
  ensures {C14} [with logs the previous source stays the source if it is a replica that kept its identity] (err == nil && binlog && sameID(bm, bm.cluster.Status.Backup.SourceIndex) && bm.cluster.Status.Backup.SourceIndex != ridx(bm)) ==> idx == bm.cluster.Status.Backup.SourceIndex
  ensures {C14} [with logs the primary is the source only if no replica kept its identity] (err == nil && binlog && idx == ridx(bm)) ==> forall(j, 0, len(pods), j == ridx(bm) || !sameID(bm, j))

# --- the whole backup
ghost bkPods *corev1.PodList
pred pord(s) = atoi(part(s, "-", nparts(s, "-") - 1))
extern client.Reader.List(c, ctx, list, opts) (err)
  props C14 C15
  modifies list
  # the pods of a StatefulSet have different ordinals; so if all of them are below the number of pods each occurs
  ensures (err == nil && is(list, "*corev1.PodList") && forall(i, 0, len(as(list, "*corev1.PodList").Items), 0 <= pord(as(list, "*corev1.PodList").Items[i].Name) && pord(as(list, "*corev1.PodList").Items[i].Name) < len(as(list, "*corev1.PodList").Items))) ==> forall(k, 0, len(as(list, "*corev1.PodList").Items), exists(i, 0, len(as(list, "*corev1.PodList").Items), pord(as(list, "*corev1.PodList").Items[i].Name) == k))
  ensures (err == nil && is(list, "*corev1.PodList")) ==> forall(i, 0, len(as(list, "*corev1.PodList").Items), forall(j, 0, len(as(list, "*corev1.PodList").Items), pord(as(list, "*corev1.PodList").Items[i].Name) == pord(as(list, "*corev1.PodList").Items[j].Name) ==> i == j))
  set bkPods = ite(err == nil && is(list, "*corev1.PodList"), as(list, "*corev1.PodList"), bkPods)
# the position of an instance read last
ghost posOp bkop.Operator
ghost posLog string
ghost posUUID string
ghost dumpOp bkop.Operator
ghost dumpGTID string
ghost dumpDir string
ghost binOp bkop.Operator
ghost binlogDir string
extern bkop.Operator.GetServerStatus(o, ctx, st) (err)
  props C14 C15
  modifies *st
  ensures err == nil ==> st.UUID == uuidAt(hostOf(o))
  set posOp = ite(err == nil, o, nil)
  set posLog = post(st.CurrentBinlog)
  set posUUID = post(st.UUID)
extern bkop.Operator.DumpFull(o, ctx, dir) (err)
  set dumpOp = ite(err == nil, o, nil)
  set dumpDir = dir
extern bkop.GetGTIDExecuted(dir) (g, err)
  props C14 C15
  set dumpGTID = ite(err == nil && dir == dumpDir && dumpOp != nil, g, dumpGTID)
extern bkop.Operator.GetBinlogs(o, ctx) (r, err)
  ensures fresh(r)
  set logList = r
  set logsOf = o
extern bkop.Operator.DumpBinlog(o, ctx, dir, name, gtid) (err)
  set binOp = ite(err == nil, o, nil)
ghost logList []string
ghost logsOf bkop.Operator
pred logNo(s) = ite(nparts(s, ".") == 2, pnum(part(s, ".", 1)), 0)
# archive commands: made, and waited for with success
import exec "os/exec"
ghost tarDump *exec.Cmd
ghost tarLogs *exec.Cmd
ghost zstd *exec.Cmd
ghost cmdWaited [*exec.Cmd]bool
extern exec.Command(name, arg) (c)
  props C15
  ensures c != nil && fresh(c)
  set tarDump = ite(name == "tar" && len(arg) == 6 && arg[5] == "dump", c, tarDump)
  set tarLogs = ite(name == "tar" && len(arg) == 6 && arg[5] == "binlog", c, tarLogs)
  set zstd = ite(name == "zstd", c, zstd)
extern (*exec.Cmd).Wait(c) (err)
  props C15
  set cmdWaited = store(cmdWaited, c, err == nil)
extern client.ObjectKeyFromObject(obj) (k)
  props C14 C15
# objects stored in the bucket
ghost stored [string]bool
ghost converted [int]bool
logic pjoin5(a string, b string, c string, d string, e string) string
logic stampText(t time.Time) string
extern path.Join(elem) (r)
  props C15
  ensures len(elem) == 5 ==> r == pjoin5(elem[0], elem[1], elem[2], elem[3], elem[4])
extern (time.Time).UTC(t) (r)
  props C15
  ensures r == t
  set converted = store(converted, t, true)
extern (time.Time).Format(t, layout) (r)
  props C15
  ensures (layout == "20060102-150405" && converted[t]) ==> r == stampText(t)
extern bucket.Bucket.Put(b, ctx, key, data, size) (err)
  set stored = ite(err == nil, store(stored, key, true), stored)
pred dumpKey(bm, t) = pjoin5("moco", bm.cluster.Namespace, bm.cluster.Name, stampText(t), "dump.tar")
pred logKey(bm, t) = pjoin5("moco", bm.cluster.Namespace, bm.cluster.Name, stampText(t), "binlog.tar.zst")
ghost backupRecorded bool
extern client.SubResourceWriter.Update(c, ctx, obj, opts) (err)
  props C15
  set backupRecorded = ite(err == nil, true, backupRecorded)
pred rec(obj) = mcl(obj).Status.Backup
func (*bk.BackupManager).Backup(bm, ctx) (err)
  root
  props C14 C15
  requires bkPods == nil && posOp == nil && dumpOp == nil && binOp == nil && tarDump == nil && tarLogs == nil && zstd == nil && !backupRecorded && logList == nil && logsOf == nil && forall(k, "string", !stored[k])
  requires 0 <= ridx(bm) && ridx(bm) < bm.cluster.Spec.Replicas
  invariant forall(j, 0, $i, 0 <= pord(bkPods.Items[j].Name) && pord(bkPods.Items[j].Name) < len(bkPods.Items))
  invariant forall(j, 0, $i, $s[pord(bkPods.Items[j].Name)] == addr(bkPods.Items[j]))
  at {C14} bkop.Operator.DumpFull(o, _, _) [the dump is taken from a ready pod]
     exists(i, 0, len(bkPods.Items), readyPod(addr(bkPods.Items[i])) && hostOf(o) == bkPods.Items[i].Status.PodIP)
  at {C15} bkop.Operator.DumpFull(o, _, _) [the position of the source is read before its dump, which is taken once]
     posOp == o && dumpOp == nil
  at {C15} bkop.Operator.DumpBinlog(o, _, _, name, gtid) [logs of the dumped instance, without the transactions of the previous backup]
     o == dumpOp && gtid == bm.cluster.Status.Backup.GTIDSet
  at {C15} bkop.Operator.DumpBinlog(o, _, _, name, gtid) [logs of the previous source are taken from the recorded one on]
     bm.sourceIndex == bm.cluster.Status.Backup.SourceIndex ==> name == bm.cluster.Status.Backup.BinlogFilename
  at {C15} bkop.Operator.DumpBinlog(o, _, _, name, gtid) [logs of another source are taken from the oldest on]
     bm.sourceIndex != bm.cluster.Status.Backup.SourceIndex ==> (logsOf == o && len(logList) > 0 && logList[0] == name)
  at {C15} bkop.Operator.DumpBinlog(o, _, _, name, gtid) [and that is the oldest]
     bm.sourceIndex != bm.cluster.Status.Backup.SourceIndex ==> forall(j, 1, len(logList), logNo(name) <= logNo(logList[j]))
  at {C15} bucket.Bucket.Put(_, _, key, _, _) [a dump is stored after it has been taken]
     dumpOp != nil && (key == dumpKey(bm, bm.startTime) || (binOp == dumpOp && key == logKey(bm, bm.cluster.Status.Backup.Time.Time)))
  at {C15} client.SubResourceWriter.Update(_, _, obj, _) [the recorded backup is stored completely]
     dumpOp != nil && stored[dumpKey(bm, rec(obj).Time.Time)] && cmdWaited[tarDump] && tarDump != nil
  at {C15} client.SubResourceWriter.Update(_, _, obj, _) [the recorded source is the dumped instance]
     exists(i, 0, len(bkPods.Items), pord(bkPods.Items[i].Name) == rec(obj).SourceIndex && hostOf(dumpOp) == bkPods.Items[i].Status.PodIP) && rec(obj).SourceUUID == uuidAt(hostOf(dumpOp))
  at {C15} client.SubResourceWriter.Update(_, _, obj, _) [the recorded position was read before the dump]
     posOp == dumpOp && rec(obj).BinlogFilename == posLog
  at {C15} client.SubResourceWriter.Update(_, _, obj, _) [the recorded transactions are those of the dump]
     rec(obj).GTIDSet == dumpGTID
  at {C15} client.SubResourceWriter.Update(_, _, obj, _) [the identities recorded are those found]
     forall(k, "string", has(rec(obj).UUIDSet, k) ==> rec(obj).UUIDSet[k] == uuidAt(bm.cluster.PodHostname(atoi(k))))
  at {C15} client.SubResourceWriter.Update(_, _, obj, _) [missing binary logs are reported]
     firstTime(bm) || len(rec(obj).Warnings) > 0 || (binOp == dumpOp && stored[logKey(bm, bm.cluster.Status.Backup.Time.Time)] && tarLogs != nil && cmdWaited[tarLogs] && zstd != nil && cmdWaited[zstd])
  ensures {C15} [a successful backup is recorded] err == nil ==> backupRecorded
