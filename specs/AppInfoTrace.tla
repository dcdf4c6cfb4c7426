---------------------------- MODULE AppInfoTrace ----------------------------
EXTENDS AppInfo, TraceKit
Step(e) ==
  \/ e.op = "env" /\ Env(e.hhome, e.home, e.hpw, e.pw)
  \/ e.op = "system" /\ System(e.happ, e.app, e.size, e.ret, e.z, e.nul, e.out)
  \/ e.op = "user" /\ User(e.happ, e.app, e.size, e.ret, e.z, e.nul, e.out)
  \/ e.op = "temp" /\ Temp(e.size, e.ret, e.z, e.nul, e.out)
  \/ e.op = "exe" /\ Exe(e.hreal, e.real, e.size, e.ret, e.z, e.nul, e.out)
  \/ e.op = "exedir" /\ ExeDir(e.hreal, e.real, e.size, e.ret, e.z, e.nul, e.out)
  \/ e.op = "ids" /\ Ids(e.pid, e.thread, e.before, e.now, e.after)
TInit == TKInit /\ hhome = FALSE /\ home = <<>> /\ hpw = FALSE /\ pw = <<>>
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<avars, tid, l>>
=============================================================================
