------------------------------ MODULE TraceLib ------------------------------
(* Is a recorded run of the real library one that the specification allows?  *)
(*                                                                            *)
(* Every line of the trace is one call of the public API with its arguments,  *)
(* its results, and what it changed: the projections (all that can be read    *)
(* through the API) of every slot whose projection is not what it was before. *)
(* The trace state holds the projections; each call must be explained.        *)
(*                                                                            *)
(* One property is judged at a time (Aspect); what other properties speak of  *)
(* is taken as observed.  So a run is refused under C07 only if it breaks C07.*)
EXTENDS UrnValues, UrnGrammar, JsonText, Json, IOUtils, SnakeCamel, RemoveComments

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT

VARIABLES l, store, mode, errs, pre, grp
tvars == <<l, store, mode, errs, pre, grp>>

NilO == [nil |-> TRUE]
Machs == {"m", "n"}

Demand(as, cond) == Aspect \in as => cond

----------------------------------------------------------------------------
(* Slots: the trace state maps slot names to projections                     *)
Slots == {"a", "b", "c", "d", "u", "e", "s"}
Names(e) == {e.delta[i].slot : i \in DOMAIN e.delta}
Delta(e, s) == LET i == CHOOSE i \in DOMAIN e.delta : e.delta[i].slot = s IN e.delta[i].v
Proj(e, s) == IF s \in Names(e) THEN Delta(e, s) ELSE store[s]
Updated(e) == [s \in Slots |-> Proj(e, s)]

\* Nothing but the slots in w changed
Only(e, w) == Demand({"C17", "C12", "C09", "C10", "C22"}, Names(e) \subseteq w)

----------------------------------------------------------------------------
(* What a URN projection must be for a text parsed in a mode                  *)

Fields(o, x) == /\ o.id = x.id /\ o.ss = x.ss /\ o.r = x.r /\ o.q = x.q /\ o.f = x.f

Declared(m, t, e) == LET x == Split(m, t) IN
   /\ (e.res = "urn") <=> x.ok
   /\ x.ok => /\ Fields(e.v, x)
              /\ m = "7643" => /\ ~e.v.scim.nil
                               /\ NameOf(e.v.scim.ty) = x.ty
                               /\ e.v.scim.nm = x.nm /\ e.v.scim.ot = x.ot

\* both descriptions of the language, which must agree
Whole(m, t, e) == LET o == Outcome(m, t) IN
   /\ (e.res = "urn") <=> o.ok
   /\ o.ok => Fields(e.v, o.urn)

KindOK(m, v) ==
  /\ v.kind = KindOf(m)
  /\ v.isscim <=> m = "7643"
  /\ v.scim.nil <=> m # "7643"
  /\ m = "7643" => /\ v.scim.canon = SCIMHead \o v.ss
                   /\ v.scim.canon = Canon(v.scim)
NoKind(v) == v.kind = "NONE" /\ ~v.isscim /\ v.scim.nil

ErrOK(m, t, e) == LET o == Outcome(m, t) IN
   (e.res = "err" /\ ~o.ok) => e.err = ErrString(o.err, o.col)

\* everything there is to read of the value that a text yields
AllOf(o, p) ==
  /\ Fields(o, p) /\ o.kind = p.kind /\ o.isscim = p.isscim /\ o.str = p.str /\ o.norm = p.norm
  /\ o.scim.nil = p.scim.nil
  /\ ~o.scim.nil => /\ o.scim.ty = p.scim.ty /\ o.scim.nm = p.scim.nm
                    /\ o.scim.ot = p.scim.ot /\ o.scim.canon = p.scim.canon
Yields(m, t, e) == LET o == Outcome(m, t) IN
  /\ (e.res = "urn") <=> o.ok
  /\ o.ok => AllOf(e.v, Project(o.urn))

SameOutcome(a, b) ==
  /\ a.res = b.res
  /\ a.res = "urn" => a.v = b.v
  /\ a.res = "err" => a.err = b.err

\* what is read of it again later: the same but for the answer of Normalize
Alike(v, w) == [v EXCEPT !.norm = <<>>] = [w EXCEPT !.norm = <<>>]

ParseOK(m, e) ==
  /\ Demand({"C01"}, m = "2141" => Declared(m, e.t, e) /\ Whole(m, e.t, e))
  /\ Demand({"C02"}, m = "8141" => Declared(m, e.t, e) /\ Whole(m, e.t, e))
  /\ Demand({"C03"}, m = "7643" => Declared(m, e.t, e) /\ Whole(m, e.t, e))
  /\ Demand({"C05"}, e.res \in {"urn", "err"})
  /\ Demand({"C22"}, Yields(m, e.t, e))
  /\ Demand({"C06"}, ErrOK(m, e.t, e))
  /\ Demand({"C09"}, e.fresh.res = e.res /\ SameOutcome(e, e.fresh))
  /\ Demand({"C10"}, e.after = e.before /\ ~e.fault)
  /\ (e.res = "urn") =>
       /\ Demand({"C04"}, /\ e.v.str = TrimHash(e.t)
                          /\ e.again.res = "urn" /\ Alike(e.again.v, e.v))
       /\ Demand({"C13"}, KindOK(m, e.v))

\* The machines' Error(): "" for nil, "=" and the text otherwise
Others(e) == Demand({"C05", "C09"}, \A x \in Machs \ {e.m} : e.me[x] = errs[x])

\* p := NewMachine(options)
EvNew(e) ==
  /\ Only(e, {}) /\ Others(e)
  /\ Demand({"C05", "C09"}, e.me[e.m] = "")
  /\ mode' = [mode EXCEPT ![e.m] = LastMode(e.opts)]

EvMode(e) ==
  /\ Only(e, {}) /\ Others(e)
  /\ Demand({"C05"}, e.me[e.m] = errs[e.m])
  /\ mode' = [mode EXCEPT ![e.m] = ModeOf(e.x)]

EvParse(e) ==
  /\ Only(e, {e.d}) /\ Others(e)
  /\ ParseOK(mode[e.m], e)
  /\ Demand({"C05"}, /\ e.res = "urn" => e.me[e.m] = ""
                     /\ e.res = "err" => e.me[e.m] = "=" \o e.err)
  /\ Demand({"C09"}, e.me[e.m] = e.freshme)
  /\ UNCHANGED mode

EvPParse(e) ==
  /\ Only(e, {e.d})
  /\ ParseOK(LastMode(e.opts), e)
  /\ Demand({"C05"}, e.okflag <=> e.res = "urn")
  /\ UNCHANGED mode

\* the caller overwrites the buffer of an earlier parse
EvScribble(e) == Only(e, {}) /\ Demand({"C10"}, e.me = errs) /\ UNCHANGED mode

----------------------------------------------------------------------------
(* Value operations *)

NText(o) == sURN \o <<Colon>> \o NormId(o.id) \o <<Colon>> \o NormSS(o.ss)

EvNorm(e) ==
  LET s == store[e.s] IN
  /\ Only(e, {e.d})
  /\ Demand({"C07"}, /\ e.v.str = NText(s)
                     /\ e.v.id = NormId(s.id) /\ e.v.ss = NormSS(s.ss)
                     /\ e.v.r = <<>> /\ e.v.q = <<>> /\ e.v.f = <<>>
                     /\ e.s # e.d => e.s \notin Names(e)
                     \* normalized once more
                     /\ e.twice.str = e.v.str
                     /\ e.twice.id = e.v.id /\ e.twice.ss = e.v.ss
                     \* and parsed again in the mode it came from, if any
                     /\ e.back.res # "none" =>
                          /\ e.back.res = "urn"
                          /\ e.back.v.id = e.v.id /\ e.back.v.ss = e.v.ss)
  /\ Demand({"C13"}, e.v.nil \/ NoKind(e.v))
  /\ UNCHANGED mode

EvEqual(e) ==
  /\ Only(e, {})
  /\ Demand({"C08"}, /\ ~e.panic
                     /\ e.res = (IF e.x = "nil" \/ store[e.x].nil THEN FALSE
                                 ELSE NText(store[e.s]) = NText(store[e.x]))
                     /\ e.x # "nil" /\ ~store[e.x].nil => e.rev = e.res
                     /\ Names(e) = {})
  /\ UNCHANGED mode

\* composing, assigning, copying: what the caller does; adopted as observed
EvMake(e) ==
  /\ Only(e, {e.d})
  /\ Demand({"C13"}, e.how = "compose" => NoKind(e.v))
  /\ Demand({"C13"}, e.how # "compose" => /\ e.v.kind = store[e.s].kind
                                         /\ e.v.isscim = store[e.s].isscim
                                         /\ e.v.scim.nil = store[e.s].scim.nil
                                         \* of what was parsed, not of what was assigned
                                         /\ e.v.scim.canon = store[e.s].scim.canon)
  /\ Demand({"C17"}, LET was == store[e.s]  now == Proj(e, e.d) IN
       /\ e.how = "copy" => e.v = was
       \* read twice, and what was not assigned
       /\ e.v = now
       /\ e.how \in {"setid", "setss"} =>
            /\ now.r = was.r /\ now.q = was.q /\ now.f = was.f
            /\ now.kind = was.kind /\ now.isscim = was.isscim /\ now.scim = was.scim)
  /\ UNCHANGED mode

\* the SCIM receiver is assigned the value that SCIM() of a URN points to
EvPutView(e) ==
  /\ Only(e, {e.d})
  /\ Demand({"C17"}, Proj(e, e.d).scim = store[e.s].scim)
  /\ UNCHANGED mode

\* the caller changes the SCIM value that a URN's SCIM() points to: that URN
\* and what was copied from it (or it from) have that view
EvSetView(e) ==
  /\ Demand({"C22"}, Names(e) \subseteq {s \in Slots : grp[s] = grp[e.s]})
  /\ UNCHANGED mode

GroupOf(e) ==
  CASE e.op = "reset" -> [s \in Slots |-> s]
    [] e.op \in {"parse", "pparse", "norm"} -> [grp EXCEPT ![e.d] = ToString(l)]
    [] e.op = "make" -> [grp EXCEPT ![e.d] = CASE e.how = "compose" -> ToString(l)
                                               [] e.how = "copy" -> grp[e.s]
                                               [] OTHER -> @]
    [] e.op = "unm" -> IF e.ok THEN [grp EXCEPT ![e.d] = ToString(l)] ELSE grp
    [] OTHER -> grp

\* every reading operation, twice, in whatever order: same answers
EvRead(e) ==
  /\ Only(e, {})
  /\ Demand({"C17"}, /\ ~e.panic /\ e.one = store[e.s] /\ e.two = store[e.s]
                     /\ e.json1 = e.json2)
  /\ Demand({"C11"}, ~e.panic /\ LET d == JDecode(e.json1) IN d.ok /\ d.str = store[e.s].str)
  /\ UNCHANGED mode

----------------------------------------------------------------------------
(* JSON *)

\* receivers: "u" a URN, "e" a URN8141, "s" a SCIM; the projection of "s" has
\* only its scim part, with the SCIM value.
EvUnm(e) ==
  LET d == JDecode(e.json)
      m == TypeMode(e.ty)
      was == store[e.d]
      now == Proj(e, e.d)
      fits == d.ok /\ e.parsed.res = "urn"
  IN
  /\ Only(e, {e.d})
  /\ Demand({"C11"}, /\ e.ok <=> fits
                     /\ e.ok => /\ IF e.ty = "SCIM" THEN now.scim = e.parsed.v.scim
                                   ELSE now = e.parsed.v
                                /\ e.back = "same"
                     /\ (d.ok /\ ~e.ok) => e.quotes)
  /\ Demand({"C22"}, e.ok => LET o == Outcome(m, d.str) IN
                          /\ d.ok /\ o.ok
                          /\ IF e.ty = "SCIM" THEN now.scim.canon = Canon(o.urn.scim)
                             ELSE AllOf(now, Project(o.urn)))
  /\ Demand({"C12"}, IF e.ok THEN now = e.freshv ELSE e.d \notin Names(e))
  /\ Demand({"C13"}, (e.ok /\ e.ty # "SCIM") => KindOK(m, now))
  /\ Demand({"C10"}, ~e.fault /\ e.after = e.json)
  /\ UNCHANGED mode

EvMarshal(e) ==
  /\ Only(e, {})
  /\ Demand({"C11"},
       /\ e.res = "ok"
       /\ LET d == JDecode(e.json) IN
          d.ok /\ d.str = (IF e.ty = "SCIM" THEN Canon(e.v.scim)
                           ELSE e.v.str))
  /\ UNCHANGED mode

----------------------------------------------------------------------------
(* Cross-mode agreement: one text in three modes *)

NoComp(o) == o.r = <<>> /\ o.q = <<>> /\ o.f = <<>>
Plain(ss) == \A i \in DOMAIN ss : ss[i] \notin {Tilde, Amp, Slash}

EvModes(e) ==
  /\ Only(e, {})
  /\ Demand({"C14"},
       LET a == e.p2141  b == e.p7643  c == e.p8141
           A == a.res = "urn"  B == b.res = "urn"  C == c.res = "urn" IN
       /\ B => A /\ C
       /\ (A /\ NID8141(a.v.id)) => C /\ c.v.id = a.v.id /\ c.v.ss = a.v.ss /\ NoComp(c.v)
       /\ (C /\ e.t # <<>> /\ e.t[Len(e.t)] # Hash /\ NoComp(c.v) /\ Plain(c.v.ss) /\ LowS(c.v.id) # sURN)
            => A /\ a.v.id = c.v.id /\ a.v.ss = c.v.ss
       /\ \A x, y \in {a, b, c} :
             (x.res = "urn" /\ y.res = "urn" /\ NoComp(x.v) /\ NoComp(y.v))
               => x.v.str = y.v.str /\ x.norm = y.norm
       /\ \A i \in DOMAIN e.eq : e.eq[i])
  /\ UNCHANGED mode

----------------------------------------------------------------------------
(* SCIM types and values *)

EvType(e) == /\ Only(e, {}) /\ Demand({"C16"}, e.ty = TypeOf(e.t)) /\ UNCHANGED mode
EvTypeName(e) == /\ Only(e, {}) /\ Demand({"C16"}, e.t = NameOf(e.ty)) /\ UNCHANGED mode

ScimParses(c) == /\ c.ty \in TypeNames /\ Len(c.nm) > 0
                 /\ \A i \in DOMAIN c.nm : c.nm[i] \in Alnum
                 /\ Made(c.ot, Sss)
EvScim(e) ==
  /\ Only(e, {})
  /\ Demand({"C16"}, /\ e.c.canon = Canon(e.c)
                     /\ ScimParses(e.c) =>
                          /\ e.back.res = "urn" /\ ~e.back.v.scim.nil
                          /\ e.back.v.scim.ty = e.c.ty /\ e.back.v.scim.nm = e.c.nm
                          /\ e.back.v.scim.ot = e.c.ot)
  /\ UNCHANGED mode

----------------------------------------------------------------------------
(* Concurrency: what a call gave among others, and what it gives alone *)
EvConc(e) == /\ Only(e, {}) /\ Demand({"C15"}, e.res = e.alone) /\ UNCHANGED mode

(* Cost (MCCost): two texts of one shape, or two numbers of parses on one     *)
(* machine, with the time in microseconds and the memory in KB that they took. *)
(* What is linear takes n2/n1 times as much; generous about constants, timers, *)
(* caches and the runtime, but far from what anything quadratic takes.         *)
CostOK(e) == LET f == e.n2 \div e.n1 IN
  /\ e.u2 <= 3000 \/ e.u2 <= 3 * f * (e.u1 + 20)
  /\ e.k2 <= 4 * f * e.k1 + 256
EvCost(e) == /\ Only(e, {}) /\ Demand({"C20"}, CostOK(e)) /\ UNCHANGED mode

(* What the library gave as text, or as a SCIM value, read again later: it    *)
(* stays as it was, whatever became of the URN it is of.                      *)
GivenBy(w) == CASE w = "str"   -> {"C21", "C17", "C22"}
                [] w = "norm"  -> {"C07", "C17", "C22"}
                [] w = "value" -> {"C09", "C17", "C22"}
                [] w = "canon" -> {"C16", "C17", "C22"}
                [] w = "json"  -> {"C11", "C17", "C22"}
                [] w = "view"  -> {"C17", "C22"}
                [] w = "error" -> {"C09", "C22"}
EvGiven(e) == /\ Only(e, {}) /\ Demand(GivenBy(e.what), e.was = e.now) /\ UNCHANGED mode

(* The source tools *)
EvSnake(e) == /\ Only(e, {})
              /\ Demand({"C18"}, e.out = SnakeFix(e.t) /\ e.exit = 0) /\ UNCHANGED mode
EvRmc(e) == /\ Only(e, {})
            /\ Demand({"C19"}, e.out = RmComments(e.t) /\ e.exit = 0) /\ UNCHANGED mode
EvToolBad(e) == /\ Only(e, {})
                /\ Demand({"C18", "C19"}, e.exit # 0 /\ e.same) /\ UNCHANGED mode

----------------------------------------------------------------------------
(* C21: the string form is what the fields say.  The prefix as it was parsed  *)
(* cannot be read otherwise, so the trace state carries it.                   *)
Head3(t) == SubSeq(t, 1, IF Len(t) < 3 THEN Len(t) ELSE 3)
PreOf(e) ==
  CASE e.op = "reset" -> [s \in Slots |-> IF s \in Names(e) THEN Head3(Delta(e, s).str) ELSE <<>>]
    [] e.op \in {"parse", "pparse"} -> [pre EXCEPT ![e.d] = IF e.res = "urn" THEN Head3(e.t) ELSE <<>>]
    [] e.op = "norm" -> [pre EXCEPT ![e.d] = sURN]
    [] e.op = "make" -> [pre EXCEPT ![e.d] = CASE e.how = "compose" -> <<>>
                                               [] e.how = "copy" -> pre[e.s]
                                               [] OTHER -> @]
    [] e.op = "unm" -> IF e.ok /\ e.ty # "SCIM" THEN [pre EXCEPT ![e.d] = Head3(JDecode(e.json).str)] ELSE pre
    [] OTHER -> pre

StrOK(p, o) == o.str = Text([Zero EXCEPT !.pre = p, !.id = o.id, !.ss = o.ss, !.r = o.r, !.q = o.q, !.f = o.f])
Strings(e, p) == Demand({"C21"}, e.op = "reset" \/ \A s \in Names(e) : Delta(e, s).nil \/ StrOK(p[s], Delta(e, s)))

----------------------------------------------------------------------------
Explained(e) ==
  CASE e.op = "new"     -> EvNew(e)
    [] e.op = "mode"    -> EvMode(e)
    [] e.op = "parse"   -> EvParse(e)
    [] e.op = "pparse"  -> EvPParse(e)
    [] e.op = "scribble" -> EvScribble(e)
    [] e.op = "norm"    -> EvNorm(e)
    [] e.op = "equal"   -> EvEqual(e)
    [] e.op = "make"    -> EvMake(e)
    [] e.op = "read"    -> EvRead(e)
    [] e.op = "setview" -> EvSetView(e)
    [] e.op = "putview" -> EvPutView(e)
    [] e.op = "unm"     -> EvUnm(e)
    [] e.op = "marshal" -> EvMarshal(e)
    [] e.op = "modes"   -> EvModes(e)
    [] e.op = "type"    -> EvType(e)
    [] e.op = "typename" -> EvTypeName(e)
    [] e.op = "scim"    -> EvScim(e)
    [] e.op = "conc"    -> EvConc(e)
    [] e.op = "given"   -> EvGiven(e)
    [] e.op = "cost"    -> EvCost(e)
    [] e.op = "snake"   -> EvSnake(e)
    [] e.op = "rmc"     -> EvRmc(e)
    [] e.op = "toolbad" -> EvToolBad(e)
    \* a new world: a new process, or new slots and machines
    [] e.op = "reset"   -> mode' = [m \in Machs |-> "2141"]

TraceInit == /\ l = 1 /\ store = [s \in Slots |-> NilO] /\ mode = [m \in Machs |-> "2141"]
             /\ errs = [m \in Machs \cup {"j"} |-> ""] /\ pre = [s \in Slots |-> <<>>] /\ grp = [s \in Slots |-> s]

TraceNext ==
  /\ l <= Len(Trace)
  /\ Explained(Trace[l])
  /\ store' = IF Trace[l].op = "reset"
               THEN [s \in Slots |-> IF s \in Names(Trace[l]) THEN Delta(Trace[l], s) ELSE NilO]
               ELSE Updated(Trace[l])
  /\ errs' = Trace[l].me
  /\ pre' = PreOf(Trace[l])
  /\ grp' = GroupOf(Trace[l])
  /\ Strings(Trace[l], pre')
  /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Report == PrintT("TRACE " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
Post == Report /\ Accepted
=============================================================================
