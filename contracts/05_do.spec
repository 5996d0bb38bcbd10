# One maintenance pass: what each state permits.
# cur: the status set of the pass
ghost cur *cl.StatusSet
# primaryRead[obj]: the primary index that was read into obj from the API server
ghost primaryRead [any]int
pred in2(ss, a, b) = ss.State == a || ss.State == b
pred maySwitch() = in2(cur, cl.StateHealthy, cl.StateDegraded) && cur.NeedSwitch && !cur.PreventPodDeletion
pred mayConfigure() = cur.State == cl.StateIncomplete || (cur.State == cl.StateDegraded && !maySwitch())
pred noClone(s) = s != nil && (s.CloneStatus == nil || s.CloneStatus.State.String == "Failed")

# the status set of a pass is the one whose state was decided last
func (*cl.managerProcess).do(p, ctx) (redo, err)
  plain
  root
  props C09
  on (*cl.StatusSet).DecideState(s) set cur = s
  at dbop.Operator.SetReadOnly(o, _, b) [read-only flags change only in a switchover or a configuration]
     maySwitch() || mayConfigure()
  at dbop.Operator.KillConnections(o, _) [connections are killed only in a switchover or a configuration]
     maySwitch() || mayConfigure()
  at dbop.Operator.ConfigureReplica(o, _, _, _) [replication is changed only in a configuration]
     mayConfigure()
  at dbop.Operator.ConfigurePrimary(o, _, _) [semi-synchronous replication is changed only in a configuration]
     mayConfigure()
  at dbop.Operator.StopReplicaIOThread(o, _) [replication is stopped only in a failover or a configuration]
     cur.State == cl.StateFailed || mayConfigure()
  at dbop.Operator.SetReadOnly(o, _, b) [a switchover makes no instance writable]
     b || mayConfigure()
  at agent.AgentClient.Clone(ag, _, req, _) [data is overwritten only in a configuration or the initial clone]
     mayConfigure() || (cur.State == cl.StateCloning && agentIndex(ag) == cur.Primary && noClone(cur.MySQLStatus[cur.Primary]))
  at client.SubResourceWriter.Update(_, _, obj, _) [the primary changes only in a failover or a switchover]
     (is(obj, "*mocov1beta2.MySQLCluster") && newPrimary(obj) != primaryRead[obj]) ==> (cur.State == cl.StateFailed || maySwitch())
