------------------------------- MODULE TraceCfg -------------------------------
(***************************************************************************)
(* The same sessions run in the four string configurations (property C14). *)
(* A session lists the distinct histories obtained ("alts", the first one  *)
(* of the default configuration) and which configurations produced each.   *)
(* The histories are stepped together: every event must be the same in all *)
(* of them, except that the raw-bytes configuration may accept a frame     *)
(* that the others refuse for text that is not UTF-8.                      *)
(***************************************************************************)
EXTENDS MqttStream, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

Configs == {"string", "cow", "boxed", "binary"}

VARIABLES s, l, out, inb, viol
vars == <<s, l, out, inb, viol>>

Sess == Log[s]
Alts == Sess.alts
Base == Alts[1].ev
Ev   == Base[l + 1]
N    == Len(Alts)

Tick(key) == LET m == TLCGet(1)
             IN TLCSet(1, IF key \in DOMAIN m THEN [m EXCEPT ![key] = @ + 1]
                          ELSE m @@ (key :> 1))

CfsOf(a) == {Alts[a].cfs[i] : i \in 1..Len(Alts[a].cfs)}
AllRun   == UNION {CfsOf(a) : a \in 1..N} = Configs
OnlyRaw(a) == CfsOf(a) = {"binary"}

(* secondary results, resolved against the main one *)
SecEq(x, r, y, t) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : ResEq(Res(x[i], r), Res(y[i], t))
RtEq(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : ResEq(x[i].r, y[i].r) /\ x[i].left = y[i].left
FwEq(x, r, y, t) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : /\ ResEq(x[i].r, y[i].r)
                          /\ ResEq(Res(x[i].rr, r), Res(y[i].rr, t))

WriteAlike(a, b) ==
  /\ ResEq(a.r, b.r) /\ a.post = b.post /\ a.sz = b.sz
  /\ ResEq(Res(a.solo.r, a.r), Res(b.solo.r, b.r)) /\ a.solo.b = b.solo.b
  /\ ResEq(Res(a.tw.r, Res(a.solo.r, a.r)), Res(b.tw.r, Res(b.solo.r, b.r)))
  /\ a.tw.eq = b.tw.eq /\ a.tw.b = b.tw.b
  /\ RtEq(a.rt, b.rt) /\ a.pt = b.pt

(* Reading inb with limit max gave r in the text configurations and t in
   the raw one: r is a refusal for text, which the raw one did not make, and
   either there is something else wrong or there is such text. *)
TextOnly(max, r, t) ==
  LET F == Frame(inb, max) IN
  /\ F.t = "frame" /\ r.t = "err" /\ r.e \in FaultErrors["utf8"]
  /\ \/ t.t = "err"
     \/ t.t = "ok" /\ LET d == DecodeAt("text", RTake(inb, F.total), F.hl)
        IN \/ \E i \in 1..Len(d.f) : d.f[i][1] = "utf8"
           \/ "value" \in d.g /\ inb[1][1] \div 16 = 1      \* the password

PartAlike(a, b, raw) ==
  /\ a.k = b.k /\ a.fl = b.fl /\ a.b = b.b
  /\ \/ a.r = b.r /\ a.left = b.left
     \/ raw /\ a.r.t = "err" /\ a.r.e \in FaultErrors["utf8"]
            /\ \/ b.r.t = "err"
               \/ LET d == DecPart("text", a.k, a.fl, a.b)
                  IN \/ \E i \in 1..Len(d.f) : d.f[i][1] = "utf8"
                     \/ "value" \in d.g /\ a.k = "login"

ReadAlike(a, b, raw) ==
  /\ a.post = b.post /\ a.max = b.max
  /\ \/ ResEq(Res(a.chk, a.r), Res(b.chk, b.r))
     \/ a.chk.t = "ok" /\ a.chk = b.chk
  /\ \/ /\ ResEq(a.r, b.r)
        /\ SecEq(a.tr, a.r, b.tr, b.r) /\ SecEq(a.al, a.r, b.al, b.r)
        /\ FwEq(a.fw, a.r, b.fw, b.r)
     \/ raw /\ TextOnly(a.max, a.r, b.r)
  /\ \/ SecEq(a.nl, a.r, b.nl, b.r)
     \/ raw /\ a.nl # <<>> /\ b.nl # <<>>
        /\ TextOnly(<<>>, Res(a.nl[1], a.r), Res(b.nl[1], b.r))

Alike(a, b, raw) ==
  /\ a.o = b.o
  /\ CASE a.o = "W" -> WriteAlike(a, b)
       [] a.o = "R" -> ReadAlike(a, b, raw)
       [] a.o = "P" -> PartAlike(a, b, raw)
       [] OTHER     -> a = b

Init == /\ TLCSet(1, <<>>)
        /\ s \in 1..Len(Log)
        /\ l = 0 /\ out = <<>> /\ inb = <<>> /\ viol = {}

Step ==
  /\ l < Len(Base)
  /\ l' = l + 1
  /\ UNCHANGED s
  /\ Tick(Ev.o \o (IF N = 1 THEN " identical in all four"
                   ELSE IF N = 2 /\ OnlyRaw(2) THEN " raw bytes apart" ELSE " apart"))
  /\ viol' = Ids(/\ AllRun
                 /\ \A a \in 2..N : /\ Len(Alts[a].ev) = Len(Base)
                                    /\ Alike(Ev, Alts[a].ev[l + 1], OnlyRaw(a)),
                 {"C14"})
  /\ out' = CASE Ev.o = "W" -> Ev.post
              [] Ev.o = "O" -> RCat(out, Ev.b)
              [] Ev.o = "T" -> RDrop(out, Ev.n)
              [] Ev.o = "Z" -> IF Ev.of = "out" THEN <<>> ELSE out
              [] OTHER -> out
  /\ inb' = CASE Ev.o = "R" -> Ev.post
              [] Ev.o = "F" -> RCat(inb, Ev.b)
              [] Ev.o = "T" -> RCat(inb, RTake(out, Ev.n))
              [] Ev.o = "Z" -> IF Ev.of = "in" THEN <<>> ELSE inb
              [] OTHER -> inb

Spec == Init /\ [][Step]_vars

Holds == viol = {}
Events == FoldLeft(LAMBDA a, x : a + Len(x.alts[1].ev), 0, Log)
Accepted ==
  /\ PrintT(<<"COVERAGE", ToJson(TLCGet(1))>>)
  /\ PrintT(<<"TOTALS", Len(Log), Events, TLCGet("distinct")>>)
  /\ TLCGet("distinct") = Len(Log) + Events
Where == <<s, l>>
Brief == [id |-> Sess.id, cf |-> Alts[1].cfs, l |-> l, viol |-> viol]
=============================================================================
