------------------------------ MODULE VecTrace ------------------------------
(***************************************************************************)
(* Trace specification of gtl::vector: every recorded call must be an      *)
(* action on Vec with the recorded results.  Events:                       *)
(*    <<op, c, args.., results.., same, cap, size>>                        *)
(* same = the buffer stayed where it was.                                  *)
(***************************************************************************)
EXTENDS Vec, TLC, Json, IOUtils, AllocProp
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
NC == 3
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ VInit(NC)
Hd == Traces[tid]
BI(b) == IF b THEN 1 ELSE 0
CapInv == \A c \in 1..NC : cap[c] >= Len(s[c])
(* a value argument: a literal, or the element of the container at a position *)
Arg(c, src, x) == IF src = 0 THEN x ELSE s[c][x + 1]
Total == Len(s[1]) + Len(s[2]) + Len(s[3])
Seqs(xs) == [i \in 1..NC |-> xs[i]]

Step(e) ==
  LET c == e[2]
      N == Len(e)
      q == s[c]
      (* size and capacity as recorded, and no needless move of the buffer *)
      Fit(stable) == /\ Len(s'[c]) = e[N]
                     /\ e[N-1] >= e[N]
                     /\ cap' = [cap EXCEPT ![c] = e[N-1]]
                     /\ (stable /\ e[N] <= cap[c]) => (e[N-1] = cap[c] /\ e[N-2] = 1)
                     /\ e[N-1] >= cap[c]
      Fresh == Len(s'[c]) = e[N] /\ e[N-1] >= e[N] /\ cap' = [cap EXCEPT ![c] = e[N-1]]
  IN
  CASE e[1] = "push" ->                   \* c src x ret same cap size
         LET v == Arg(c, e[3], e[4]) IN Become(c, Append(q, v)) /\ e[5] = v /\ Fit(TRUE)
    [] e[1] = "pushn" -> Become(c, q \o [i \in 1..e[4] |-> e[3] + i - 1]) /\ Fit(TRUE)
    [] e[1] = "pop" -> q # <<>> /\ Become(c, Pre(q, Len(q) - 1)) /\ Fit(TRUE)
    [] e[1] = "ins" ->                    \* c pos n src x retpos same cap size
         LET v == Arg(c, e[5], e[6]) IN Become(c, InsAt(q, e[3], Reps(e[4], v))) /\ e[7] = e[3] /\ Fit(FALSE)
    [] e[1] = "insr" ->                   \* c pos list retpos same cap size
         Become(c, InsAt(q, e[3], e[4])) /\ e[5] = e[3] /\ Fit(FALSE)
    [] e[1] = "er" ->                     \* c a b retpos same cap size
         Become(c, Cut(q, e[3], e[4])) /\ e[5] = e[3] /\ Fit(TRUE)
    [] e[1] = "resz" ->                   \* c n src x same cap size
         Become(c, Resized(q, e[3], Arg(c, e[4], e[5]))) /\ Fit(TRUE)
    [] e[1] = "asg" -> Become(c, Reps(e[3], Arg(c, e[4], e[5]))) /\ Fit(TRUE)
    [] e[1] = "asgr" -> Become(c, e[3]) /\ Fit(TRUE)
    [] e[1] = "clr" -> Become(c, <<>>) /\ Fit(TRUE)
    [] e[1] = "shr" -> VSame /\ Fresh /\ e[N-1] <= cap[c]
    [] e[1] = "resv" -> VSame /\ Fit(FALSE) /\ e[N-1] >= e[3] /\ (e[3] <= cap[c] => e[N-2] = 1)
    [] e[1] = "set" -> Become(c, [q EXCEPT ![e[3] + 1] = e[4]]) /\ Fit(TRUE)
    [] e[1] = "get" -> e[4] = (IF e[3] < Len(q) THEN q[e[3] + 1] ELSE -1) /\ VSame /\ Fit(TRUE)
    [] e[1] = "it" -> e[3] = q /\ e[4] = [i \in 1..Len(q) |-> q[Len(q) + 1 - i]] /\ e[5] = BI(q = <<>>) /\ VSame /\ Fit(TRUE)
    [] e[1] = "new" -> Become(c, e[3]) /\ Fresh
    [] e[1] = "newn" -> Become(c, Reps(e[3], e[4])) /\ Fresh
    [] e[1] = "cpy" -> Become(c, s[e[3]]) /\ Fresh
    [] e[1] = "mov" ->                    \* c d capd sized same cap size: d is emptied by the driver afterwards
         /\ c # e[3] /\ s' = [s EXCEPT ![c] = s[e[3]], ![e[3]] = <<>>] /\ e[5] = 0
         /\ Len(s'[c]) = e[N] /\ e[N-1] >= e[N] /\ cap' = [cap EXCEPT ![c] = e[N-1], ![e[3]] = e[4]]
    [] e[1] = "al" -> AllocEv(e) /\ UNCHANGED <<s, cap>>       \* kind x y given x2 y2 traits
    [] e[1] = "swp" ->                    \* c d capd sized same cap size
         /\ s' = [s EXCEPT ![c] = s[e[3]], ![e[3]] = s[c]]
         /\ cap' = [cap EXCEPT ![c] = cap[e[3]], ![e[3]] = cap[c]]
         /\ e[N-1] = cap'[c] /\ e[4] = cap'[e[3]] /\ Len(s'[c]) = e[N] /\ Len(s'[e[3]]) = e[5]
    [] e[1] = "cmp" ->
         LET b == s[e[3]] lt == LexLess(q, b, 1) gt == LexLess(b, q, 1) IN
         /\ e[4] = BI(q = b) /\ e[5] = BI(q # b) /\ e[6] = BI(lt) /\ e[7] = BI(gt) /\ e[8] = BI(~gt) /\ e[9] = BI(~lt)
         /\ UNCHANGED vvars
    [] e[1] = "eif" ->                    \* c a b same cap size : remove the values v with v % a = b
         Become(c, SelectSeq(q, LAMBDA v : v % e[3] # e[4])) /\ Fit(TRUE)
    [] e[1] = "erv" -> Become(c, SelectSeq(q, LAMBDA v : v # e[3])) /\ Fit(TRUE)
    [] e[1] = "compact" -> Become(c, Resized(q, e[3], 0)) /\ Fresh
    (* a call threw: kind 1 = the container is unchanged, 0 = c (and d) hold some sequence; everything else is unchanged *)
    [] e[1] = "thr" ->                    \* c kind d contents(3) caps(3)
         /\ s' = Seqs(e[5]) /\ cap' = Seqs(e[6])
         /\ \A x \in 1..NC : /\ cap'[x] >= Len(s'[x])
                             /\ (x \in {c, e[4]} /\ e[3] = 0) \/ s'[x] = s[x]
    (* as many objects are alive as elements are held; every block of memory has been returned at the end *)
    [] e[1] = "acct" -> e[2] = Hd.objs * Total /\ UNCHANGED vvars
    [] e[1] = "fin" -> e[2] = 0 /\ e[3] = 0 /\ e[4] = 0 /\ UNCHANGED vvars
    [] OTHER -> FALSE

TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Len(Hd.ev[l]) > 1 /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tid, l, vvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, vvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
