------------------------------ MODULE TamperMC ------------------------------
(* What the layout of both formats guarantees against someone who holds the stored files but no keys.  Cryptography is ideal: every encryption of a block is a new
   instance whose two halves (cipher text; IV and MAC) can be stored, copied and destroyed but not made; opening a block succeeds only with both halves of one instance
   and, if the design binds them, the key of the file and the number of the block.  The full format also seals the list of IVs and MACs of a file (HMAC).
   The attacker puts any known part anywhere, any number of times.  Designs lacking one of the bindings are explored too: each must be shown to let something in that was
   never stored there, so that the model is known to see the difference. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS MaxWrites, MaxTamper
Files == {"a", "b"}
Blocks == {0, 1}
Vals == {1, 2}
Hole == 0            \* a block of zeros, never written
Junk == 99           \* bytes that are no part of anything
VARIABLES design, enc, ct, tag, head, seal, hist, sealed, steps, phase
vars == <<design, enc, ct, tag, head, seal, hist, sealed, steps, phase>>
Features == {"position", "filekey", "verify", "seal", "sealid"}
\* ct, tag: [file -> [block -> number of the encryption, Hole or Junk]]; head: the identity stored in the file (lite: decides the key); seal: [id, list] or none
Lite == {"position", "filekey", "verify"}
FullF == Features
Designs == {Lite, FullF} \cup {Lite \ {x} : x \in Lite} \cup {FullF \ {x} : x \in {"seal", "sealid"}}
Path(f) == f
Sealing == "seal" \in design
\* full: the identity is the place of the file; lite: it is stored in the file
Id(f) == IF "seal" \in design \/ "sealid" \in design THEN Path(f) ELSE head[f]
InitTags == [f \in Files |-> [b \in Blocks |-> Hole]]
SealOf(f, t) == [id |-> f, list |-> t]
Init == /\ design \in Designs
        /\ enc = <<>> /\ ct = InitTags /\ tag = InitTags /\ head = [f \in Files |-> f]
        /\ seal = [f \in Files |-> SealOf(f, InitTags[f])]
        /\ hist = [f \in Files |-> [b \in Blocks |-> {Hole}]] /\ sealed = [f \in Files |-> {[b \in Blocks |-> Hole]}]
        /\ steps = 0 /\ phase = "write"
Plain(t) == [b \in Blocks |-> IF t[b] = Hole THEN Hole ELSE enc[t[b]].val]
Write(f, b, v) ==
    /\ phase = "write" /\ steps < MaxWrites
    /\ LET n == Len(enc) + 1
           e == [file |-> f, pos |-> b, val |-> v]
           t == [tag[f] EXCEPT ![b] = n]
       IN /\ enc' = Append(enc, e)
          /\ ct' = [ct EXCEPT ![f][b] = n] /\ tag' = [tag EXCEPT ![f] = t]
          /\ seal' = [seal EXCEPT ![f] = SealOf(f, t)]
          /\ hist' = [hist EXCEPT ![f][b] = @ \cup {v}]
          /\ sealed' = [sealed EXCEPT ![f] = @ \cup {[c \in Blocks |-> IF t[c] = Hole THEN Hole ELSE IF t[c] = n THEN v ELSE enc[t[c]].val]}]
    /\ steps' = steps + 1 /\ UNCHANGED <<design, head, phase>>
Known == 1..Len(enc) \cup {Hole, Junk}
\* every list of tags a seal was ever made for is remembered by whoever watched
Turn == phase = "write" /\ phase' = "tamper" /\ steps' = 0 /\ UNCHANGED <<design, enc, ct, tag, head, seal, hist, sealed>>
VARIABLE seals
Tamper ==
    /\ phase = "tamper" /\ steps < MaxTamper /\ steps' = steps + 1
    /\ \E f \in Files, b \in Blocks :
          \/ \E n \in Known : ct' = [ct EXCEPT ![f][b] = n] /\ UNCHANGED <<tag, head, seal>>
          \/ \E n \in Known : tag' = [tag EXCEPT ![f][b] = n] /\ UNCHANGED <<ct, head, seal>>
          \/ \E n \in Known : ct' = [ct EXCEPT ![f][b] = n] /\ tag' = [tag EXCEPT ![f][b] = n] /\ UNCHANGED <<head, seal>>
          \/ \E g \in Files : head' = [head EXCEPT ![f] = g] /\ UNCHANGED <<ct, tag, seal>>
          \/ \E s \in seals : seal' = [seal EXCEPT ![f] = s] /\ UNCHANGED <<ct, tag, head>>
          \/ \E s \in seals : seal' = [seal EXCEPT ![f] = s] /\ tag' = [tag EXCEPT ![f] = s.list] /\ UNCHANGED <<ct, head>>
    /\ UNCHANGED <<design, enc, hist, sealed, phase>>
Next == \/ (Tamper /\ UNCHANGED seals)
        \/ (Turn /\ UNCHANGED seals)
        \/ \E f \in Files, b \in Blocks, v \in Vals : Write(f, b, v) /\ seals' = seals \cup {seal'[f]}
Spec == (Init /\ seals = {seal[f] : f \in Files}) /\ [][Next]_<<vars, seals>>

Fail == 77
Odd == 78       \* something nobody ever wrote
Opens(f) == ~Sealing \/ (seal[f].list = tag[f] /\ ("sealid" \in design => seal[f].id = Path(f)))
Block(f, b) ==
    LET c == ct[f][b]
        t == tag[f][b]
    IN IF t = Hole /\ c = Hole THEN Hole
       ELSE IF t = Hole /\ Sealing THEN Hole                  \* full: no IV and MAC, a block never written
       ELSE IF c \notin 1..Len(enc) \/ t \notin 1..Len(enc) THEN (IF "verify" \in design THEN Fail ELSE Odd)
       ELSE IF "verify" \in design /\ c # t THEN Fail
       ELSE IF "filekey" \in design /\ enc[c].file # Id(f) THEN Fail
       ELSE IF "position" \in design /\ enc[c].pos # b THEN Fail
       ELSE enc[c].val
Reads(f) == IF Opens(f) THEN [b \in Blocks |-> Block(f, b)] ELSE [b \in Blocks |-> Fail]
\* whose content the file may show: the full format its own, the lite format that of the file whose identity it carries
Own(f) == Id(f)
Genuine == \A f \in Files, b \in Blocks : LET v == Reads(f)[b] IN v = Fail \/ v = Hole \/ v \in hist[Own(f)][b]
\* the full format moreover shows the blocks of one version only
OneVersion == \A f \in Files : LET r == Reads(f) IN \E s \in sealed[f] : \A b \in Blocks : r[b] = Fail \/ r[b] = s[b] \/ ct[f][b] = Hole
Report(x) == PrintT(<<"WITNESS", x>>)
Sound == /\ (design \in {Lite, FullF} => Genuine)
         /\ (design = FullF => OneVersion)
Witness == /\ (design \notin {Lite, FullF} /\ ~Genuine => TLCSet(1, TLCGet(1) \cup {<<design, "genuine">>}))
           /\ (design # FullF /\ "seal" \notin design /\ ~OneVersion => TLCSet(1, TLCGet(1) \cup {<<design, "one version">>}))
           /\ (design = FullF \ {"sealid"} /\ ~OneVersion => TLCSet(1, TLCGet(1) \cup {<<design, "one version">>}))
ASSUME TLCSet(1, {})
Missing == ({<<d, "genuine">> : d \in Designs \ {Lite, FullF, FullF \ {"seal"}, FullF \ {"sealid"}}} \cup {<<FullF \ {"seal"}, "one version">>}) \ TLCGet(1)
Done == Missing = {} \/ (PrintT(<<"designs not told apart", Missing>>) /\ FALSE)
=============================================================================
