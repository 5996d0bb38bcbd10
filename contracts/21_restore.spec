# Restoring from a backup: which dump, which binary logs, and when the restoration is recorded.
import bk "github.com/cybozu-go/moco/backup"
import bkop "github.com/cybozu-go/moco/pkg/bkop"
import bucket "github.com/cybozu-go/moco/pkg/bucket"
import time "time"
import path "path"
import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
# the object keys of the source cluster
ghost listed []string
# the object being read, and the objects loaded into the database
ghost gotKey string
ghost loadedDump string
ghost loadedBinlog string
ghost restorePrepared bool
ghost restoreFinished bool
ghost restoreRecorded bool
logic pdir(s string) string
logic pbase(s string) string
# a directory name is a backup time, and which
logic stampOK(s string) bool
logic stamp(s string) time.Time
pred keyOK(k) = stampOK(pbase(pdir(k)))
pred keyTime(k) = stamp(pbase(pdir(k)))
pred isDumpKey(k) = strsuffix(k, "dump.tar") && !strsuffix(k, "binlog.tar.zst")
pred isBinKey(k) = strsuffix(k, "binlog.tar.zst")
extern path.Dir(s) (r)
  ensures r == pdir(s)
extern path.Base(s) (r)
  ensures r == pbase(s)
extern time.Parse(layout, s) (t, err)
  props C16
  ensures layout == "20060102-150405" ==> ((err == nil) <==> stampOK(s))
  ensures (layout == "20060102-150405" && err == nil) ==> t == stamp(s)
# Objects under the prefix of a cluster are written by moco-backup only: <prefix>/<time>/dump.tar and
# <prefix>/<time>/binlog.tar.zst; other objects there do not have a valid time in their names.  Keys of
# one prefix are ordered as their times, and binlog.tar.zst comes before dump.tar.
extern bucket.Bucket.List(b, ctx, prefix) (keys, err)
  ensures fresh(keys)
  ensures forall(i, 0, len(keys), forall(j, 0, len(keys), (!(keys[j] < keys[i]) && keyOK(keys[i]) && keyOK(keys[j])) ==> keyTime(keys[i]) <= keyTime(keys[j])))
  ensures forall(i, 0, len(keys), forall(j, 0, len(keys), (keyOK(keys[i]) && isBinKey(keys[i]) && isDumpKey(keys[j]) && pdir(keys[i]) == pdir(keys[j])) ==> keys[i] < keys[j]))
  ensures forall(i, 0, len(keys), forall(j, 0, len(keys), (keyOK(keys[i]) && isBinKey(keys[i]) && isBinKey(keys[j]) && pdir(keys[i]) == pdir(keys[j])) ==> keys[i] == keys[j]))
  ensures forall(i, 0, len(keys), forall(j, 0, len(keys), (keyOK(keys[i]) && keyOK(keys[j]) && keyTime(keys[i]) == keyTime(keys[j])) ==> pdir(keys[i]) == pdir(keys[j])))
  ensures forall(i, 0, len(keys), keys[i] != "")
  set listed = keys
extern bucket.Bucket.Get(b, ctx, key) (r, err)
  ensures err == nil ==> r != nil
  set gotKey = ite(err == nil, key, gotKey)
extern bkop.Operator.PrepareRestore(o, ctx) (err)
  set restorePrepared = err == nil
extern bkop.Operator.LoadDump(o, ctx, dir, schema, users) (err)
  set loadedDump = ite(err == nil, gotKey, "")
extern bkop.Operator.LoadBinlog(o, ctx, dir, tmp, rp, schema) (err)
  set loadedBinlog = ite(err == nil, gotKey, "")
extern bkop.Operator.FinishRestore(o, ctx) (err)
  set restoreFinished = err == nil
extern client.SubResourceWriter.Update(c, ctx, obj, opts) (err)
  props C16
  set restoreRecorded = ite(err == nil, mcl(obj).Status.RestoredTime != nil, restoreRecorded)
pred usable(k, rp) = keyOK(k) && isDumpKey(k) && keyTime(k) <= rp
pred newest(k, rp) = exists(i, 0, len(listed), listed[i] == k) && usable(k, rp) && forall(i, 0, len(listed), usable(listed[i], rp) ==> keyTime(listed[i]) <= keyTime(k))
func (*bk.RestoreManager).Restore(rm, ctx) (err)
  root
  props C16
  requires listed == nil && !restorePrepared && !restoreFinished && !restoreRecorded && gotKey == "" && loadedDump == "" && loadedBinlog == ""
  invariant ($x != "" ==> (usable($x, rm.restorePoint) && exists(j, 0, $i, listed[j] == $x)))
  invariant forall(j, 0, $i, usable(listed[j], rm.restorePoint) ==> ($x != "" && keyTime(listed[j]) <= keyTime($x)))
  invariant ($x != "" ==> (isBinKey($x) && keyOK($x) && exists(j, 0, $i, listed[j] == $x)))
  invariant (($x != "" && $y != "") ==> pdir($x) == pdir($y))
  invariant forall(j, 0, $i, ($x != "" && keyOK(listed[j]) && isBinKey(listed[j]) && pdir(listed[j]) == pdir($x)) ==> $y == listed[j])
  invariant forall(j, 0, $i, (keyOK(listed[j]) && isBinKey(listed[j])) ==> ($y != "" && keyTime(listed[j]) <= keyTime($y)))
  invariant ($x != "" ==> keyTime($x) == $n)
  at bkop.Operator.PrepareRestore(o, _) [the instance is touched only if there is a dump to restore]
     exists(i, 0, len(listed), usable(listed[i], rm.restorePoint))
  at bkop.Operator.LoadDump(o, _, _, _, _) [the newest dump up to the restore point is loaded, once, into a prepared instance]
     restorePrepared && loadedDump == "" && newest(gotKey, rm.restorePoint)
  at bkop.Operator.LoadBinlog(o, _, _, _, rp, _) [binary logs of the loaded dump are applied up to the restore point]
     loadedDump != "" && loadedBinlog == "" && isBinKey(gotKey) && pdir(gotKey) == pdir(loadedDump) && exists(i, 0, len(listed), listed[i] == gotKey) && rp == rm.restorePoint
  at bkop.Operator.FinishRestore(o, _) [the dump has been loaded]
     newest(loadedDump, rm.restorePoint)
  at bkop.Operator.FinishRestore(o, _) [the binary logs have been applied]
     keyTime(loadedDump) == rm.restorePoint || forall(i, 0, len(listed), (isBinKey(listed[i]) && pdir(listed[i]) == pdir(loadedDump)) ==> loadedBinlog == listed[i])
  at client.SubResourceWriter.Update(_, _, obj, _) [the restoration is recorded only when it is finished]
     restoreFinished && mcl(obj).Status.RestoredTime != nil
  ensures [a successful restoration is recorded] err == nil ==> (restoreFinished && restoreRecorded)
  at bucket.Bucket.List(_, _, prefix) [only objects of the source cluster are considered]
     prefix == rm.keyPrefix
logic pjoin3(a string, b string, c string) string
extern path.Join(elem) (r)
  props C16
  ensures len(elem) == 3 ==> r == pjoin3(elem[0], elem[1], elem[2])
func bk.calcPrefix(ns, name) (r)
  root
  props C16
  ensures [the directory of the cluster, not a prefix of its name] r == pjoin3("moco", ns, name) + "/"
