# Rolling updates: when the partition of a StatefulSet is lowered.
import ctl "github.com/cybozu-go/moco/controllers"
import podutils "k8s.io/kubectl/pkg/util/podutils"
import appsv1 "k8s.io/api/apps/v1"
ghost thePods *corev1.PodList
ghost theCluster *mocov1beta2.MySQLCluster
ghost theSet *appsv1.StatefulSet
extern client.Reader.Get(c, ctx, key, obj, opts) (err)
  props C17
  modifies obj
  set theCluster = ite(err == nil && is(obj, "*mocov1beta2.MySQLCluster"), as(obj, "*mocov1beta2.MySQLCluster"), theCluster)
  set theSet = ite(err == nil && is(obj, "*appsv1.StatefulSet"), as(obj, "*appsv1.StatefulSet"), theSet)
extern client.Reader.List(c, ctx, list, opts) (err)
  props C17
  modifies list
  ensures (err == nil && is(list, "*corev1.PodList")) ==> len(as(list, "*corev1.PodList").Items) < 1000000
  set thePods = ite(err == nil && is(list, "*corev1.PodList"), as(list, "*corev1.PodList"), thePods)
pred ru(s) = s.Spec.UpdateStrategy.RollingUpdate
pred partn(s) = *ru(s).Partition
pred wanted(s) = ite(s.Spec.Replicas == nil, 1, *s.Spec.Replicas)
# the pod conditions say Ready (what podutils.IsPodReady decides)
logic podReadyC(cs []corev1.PodCondition) bool
pred condTrue(cs, t) = exists(k, 0, len(cs), cs[k].Type == t && cs[k].Status == "True" && forall(j, 0, k, cs[j].Type != t))
pred isUpdated(s, pod) = pod.Labels["controller-revision-hash"] == s.Status.UpdateRevision
pred before(a, b) = len(a) < len(b) || (len(a) == len(b) && a < b)
extern podutils.IsPodReady(pod) (r)
  ensures r <==> podReadyC(pod.Status.Conditions)
extern podutils.IsPodAvailable(pod, min, now) (r)
  ensures r ==> podReadyC(pod.Status.Conditions)
# s: the set as it was read
pred rolling(s) = wanted(s) != s.Status.UpdatedReplicas
pred target(s) = partn(s) - 1
# the set a patch starts from
pred bset(patch) = as(mergeBase(patch), "*appsv1.StatefulSet")
func (*ctl.StatefulSetPartitionReconciler).Reconcile(r, ctx, req) (res, err)
  root
  props C17
  invariant forall(j, 0, $i, $s[j].Type != "Ready")
  invariant forall(j, 0, $i, $s[j].Type != "Healthy")
  invariant forall(j, 0, $i, $s[j].Ready)
  invariant forall(j, 0, $i, j != target(theSet) ==> (j >= partn(theSet) ==> isUpdated(theSet, thePods.Items[j])))
  invariant forall(j, 0, $i, j != target(theSet) ==> thePods.Items[j].DeletionTimestamp == nil)
  invariant forall(j, 0, $i, j != target(theSet) ==> podReadyC(thePods.Items[j].Status.Conditions))
  invariant forall(j, 0, $i, j != target(theSet) ==> forall(k, 0, len(thePods.Items[j].Status.ContainerStatuses), thePods.Items[j].Status.ContainerStatuses[k].Ready))
  invariant forall(j, 0, $i, j != target(theSet) ==> forall(k, 0, len(thePods.Items[j].Status.InitContainerStatuses), thePods.Items[j].Status.InitContainerStatuses[k].Ready))
  at client.Writer.Patch(_, _, obj, patch, _) [the partition is lowered by exactly one]
     is(obj, "*appsv1.StatefulSet") && is(mergeBase(patch), "*appsv1.StatefulSet") && partn(bset(patch)) > 0 && partn(as(obj, "*appsv1.StatefulSet")) == partn(bset(patch)) - 1
  at client.Writer.Patch(_, _, obj, patch, _) [nothing else of the update strategy changes and the set is the one that was read]
     as(obj, "*appsv1.StatefulSet") == theSet && theSet.Status.UpdateRevision == bset(patch).Status.UpdateRevision && theSet.Spec.Replicas == bset(patch).Spec.Replicas
  at client.Writer.Patch(_, _, obj, patch, _) [the specifications have been acted on]
     theCluster != nil && theCluster.Generation == theCluster.Status.ReconcileInfo.Generation && bset(patch).Generation == bset(patch).Status.ObservedGeneration
  at client.Writer.Patch(_, _, obj, patch, _) [a forced update is left alone]
     bset(patch).Annotations["moco.cybozu.com/force-rolling-update"] != "true"
  at client.Writer.Patch(_, _, obj, patch, _) [all pods are there during an update]
     rolling(bset(patch)) ==> (thePods != nil && len(thePods.Items) == wanted(bset(patch)) && target(bset(patch)) < len(thePods.Items))
  at client.Writer.Patch(_, _, obj, patch, _) [pods are counted in the order of their ordinals]
     rolling(bset(patch)) ==> forall(i, 0, len(thePods.Items), forall(j, i + 1, len(thePods.Items), !before(thePods.Items[j].Name, thePods.Items[i].Name)))
  at client.Writer.Patch(_, _, obj, patch, _) [the cluster is healthy unless the next pod is updated already or not ready]
     rolling(bset(patch)) ==> (isUpdated(bset(patch), thePods.Items[target(bset(patch))]) || !podReadyC(thePods.Items[target(bset(patch))].Status.Conditions) || condTrue(theCluster.Status.Conditions, "Healthy"))
  at client.Writer.Patch(_, _, obj, patch, _) [the other pods from the partition on are updated]
     rolling(bset(patch)) ==> (isUpdated(bset(patch), thePods.Items[target(bset(patch))]) || forall(j, 0, len(thePods.Items), j != target(bset(patch)) ==> (j >= partn(bset(patch)) ==> isUpdated(bset(patch), thePods.Items[j]))))
  at client.Writer.Patch(_, _, obj, patch, _) [the other pods are not terminating]
     rolling(bset(patch)) ==> (isUpdated(bset(patch), thePods.Items[target(bset(patch))]) || forall(j, 0, len(thePods.Items), j != target(bset(patch)) ==> (thePods.Items[j].DeletionTimestamp == nil)))
  at client.Writer.Patch(_, _, obj, patch, _) [the other pods are ready]
     rolling(bset(patch)) ==> (isUpdated(bset(patch), thePods.Items[target(bset(patch))]) || forall(j, 0, len(thePods.Items), j != target(bset(patch)) ==> (podReadyC(thePods.Items[j].Status.Conditions))))
  at client.Writer.Patch(_, _, obj, patch, _) [the containers of the other pods are ready]
     rolling(bset(patch)) ==> (isUpdated(bset(patch), thePods.Items[target(bset(patch))]) || forall(j, 0, len(thePods.Items), j != target(bset(patch)) ==> (forall(k, 0, len(thePods.Items[j].Status.ContainerStatuses), thePods.Items[j].Status.ContainerStatuses[k].Ready))))
  at client.Writer.Patch(_, _, obj, patch, _) [the init containers of the other pods are ready]
     rolling(bset(patch)) ==> (isUpdated(bset(patch), thePods.Items[target(bset(patch))]) || forall(j, 0, len(thePods.Items), j != target(bset(patch)) ==> (forall(k, 0, len(thePods.Items[j].Status.InitContainerStatuses), thePods.Items[j].Status.InitContainerStatuses[k].Ready))))
