func (*cl.managerProcess).switchover(p, ctx, ss) (err)
  props C02
  requires ss != nil && wfSS(ss)
  requires 0 <= ss.Primary && ss.Primary < len(ss.DBOps) && 0 <= ss.Candidate && ss.Candidate < len(ss.DBOps) && ss.Candidate != ss.Primary
  at client.SubResourceWriter.Update(_, _, obj, _) [the new primary is the chosen candidate]
     newPrimary(obj) == ss.Candidate && newPrimary(obj) == old(ss.Candidate)
  at client.SubResourceWriter.Update(_, _, obj, _) [the old primary accepts no writes and its clients are gone]
     readOnly[ss.DBOps[ss.Primary]] && killedRO[ss.DBOps[ss.Primary]]
  at client.SubResourceWriter.Update(_, _, obj, _) [the new primary has executed everything of the old primary]
     frozen[lastStatus[ss.DBOps[ss.Primary]]] && waited[ss.DBOps[newPrimary(obj)]][lastStatus[ss.DBOps[ss.Primary]].GlobalVariables.ExecutedGTID]
