From 90d4f1e14c0edf232be7e4b1282d9c78cef17670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:04 +0000
Subject: [PATCH 1/4] fix: do not overflow when counting replicas by server ID

ServerIDBase + Replicas overflows int32 when the last server ID of the
cluster is math.MaxInt32; all replicas were then left out of the count and
the cluster never became Healthy or Degraded.
---
 clustering/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/status.go b/clustering/status.go
index 7db5c26..5b0209d 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -366,7 +366,7 @@ func isPodReady(pod *corev1.Pod) bool {
 func replicasInCluster(cluster *mocov1beta2.MySQLCluster, replicas []dbop.ReplicaHost) int32 {
 	var n int32
 	for _, r := range replicas {
-		if r.ServerID >= cluster.Spec.ServerIDBase && r.ServerID < (cluster.Spec.ServerIDBase+cluster.Spec.Replicas) {
+		if r.ServerID >= cluster.Spec.ServerIDBase && r.ServerID-cluster.Spec.ServerIDBase < cluster.Spec.Replicas {
 			n++
 		}
 	}
-- 
2.43.0


From 211b3ee5f022add0bd241211fd3b14f310e403f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:05 +0000
Subject: [PATCH 2/4] fix: do not crash when an offline cluster has no pods

---
 clustering/operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..0ffcfc3 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -354,6 +354,10 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		if pod == nil {
+			// pods of an offline cluster may be missing
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
@@ -369,6 +373,10 @@ func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusS
 func (p *managerProcess) addAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	ppod := ss.Pods[ss.Primary]
+	if ppod == nil {
+		// pods of an offline cluster may be missing
+		return nil
+	}
 	newPod := ppod.DeepCopy()
 	if newPod.Annotations == nil {
 		newPod.Annotations = make(map[string]string)
-- 
2.43.0


From 747e117fadb058f6ac5c93f79161e76ef4f0ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:19 +0000
Subject: [PATCH 3/4] fix: order the pods of a StatefulSet by ordinal in the
 partition controller

With ten or more replicas the lexicographic order of the pod names put
"-10" before "-2", so that the rollout judged the wrong pods.
---
 controllers/partition_controller.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..972398e 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -178,7 +178,7 @@ func (r *StatefulSetPartitionReconciler) isRolloutReady(ctx context.Context, clu
 }
 
 // getSortedPodList returns a sorted child pod list.
-// The list is sorted by pod name with ascending order.
+// The list is sorted by pod ordinal with ascending order.
 func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, sts *appsv1.StatefulSet) (*corev1.PodList, error) {
 	podList := &corev1.PodList{}
 	listOpts := []client.ListOption{
@@ -191,11 +191,12 @@ func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, s
 		return nil, err
 	}
 
-	// NOTE: This sorts lexicographically by pod name, which works correctly
-	// as long as the number of replicas is less than 10. For 10+ replicas,
-	// the sort order would be incorrect (e.g. "-10" < "-2").
-	// If 10+ replicas are needed, this should be changed to sort by numeric ordinal.
+	// The pods of a StatefulSet have names of the form <StatefulSet name>-<ordinal>.
+	// A longer name therefore has a greater ordinal (e.g. "-2" comes before "-10").
 	sort.Slice(podList.Items, func(i, j int) bool {
+		if len(podList.Items[i].Name) != len(podList.Items[j].Name) {
+			return len(podList.Items[i].Name) < len(podList.Items[j].Name)
+		}
 		return podList.Items[i].Name < podList.Items[j].Name
 	})
 
-- 
2.43.0


From 6505356f4f20df36d906aa4324166d0bd48d24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 4/4] fix: apply only the binlog stored with the restored dump

---
 backup/restore.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..28d0e70 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -204,7 +204,7 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 	sort.Strings(keys)
 
 	var nearest time.Time
-	var nearestDump, nearestBinlog string
+	var nearestDump, nearestBinlog, lastBinlog string
 
 	for _, key := range keys {
 		isBinlog := strings.HasSuffix(key, constants.BinlogFilename)
@@ -224,14 +224,16 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 		}
 
 		if isBinlog {
-			nearestBinlog = key
+			lastBinlog = key
 			continue
 		}
 
+		// a binlog must be applied only to the dump it was stored with
 		nearestDump = key
 		nearest = bkt
-		if path.Dir(nearestDump) != path.Dir(nearestBinlog) {
-			nearestBinlog = ""
+		nearestBinlog = ""
+		if path.Dir(lastBinlog) == path.Dir(nearestDump) {
+			nearestBinlog = lastBinlog
 		}
 	}
 
-- 
2.43.0

