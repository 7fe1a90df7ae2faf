-------------------------------- MODULE Units --------------------------------
(* Lengths and their units (property F05).                                    *)
(* A length has a value and a unit; converting it to another unit multiplies  *)
(* the value by the power of ten of the difference of the metric exponents.   *)
(* The model is a length that is converted along any chain of units; values   *)
(* are powers of ten, so a state is <<exponent of the value, unit>>.          *)
(* A unit has many spellings; the spelling never matters.  The trace part     *)
(* judges what the implementation answers for every pair of spellings.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Units == <<"m", "dm", "cm", "mm", "um", "nm", "pm">>
Exponent == [m |-> 0, dm |-> -1, cm |-> -2, mm |-> -3, um |-> -6, nm |-> -9, pm |-> -12]
UnitSet == {Units[i] : i \in 1..Len(Units)}
Factor(a, b) == Exponent[a] - Exponent[b]

\* the algebra the property states
ASSUME \A a, b, c \in UnitSet : /\ Factor(a, b) + Factor(b, c) = Factor(a, c)
                                /\ Factor(a, b) = -Factor(b, a)
                                /\ Factor(a, a) = 0

VARIABLES v, u, start, n, t, l     \* t, l: the trace and the event that is checked
vars == <<v, u, start, n, t, l>>
\* a length of one start unit
Init == \E a \in UnitSet : v = 0 /\ u = a /\ start = a /\ n = 0 /\ t = 0 /\ l = 0
Convert(b) == v' = v + Factor(u, b) /\ u' = b /\ n' = n + 1 /\ UNCHANGED <<start, t, l>>
Next == n < 3 /\ \E b \in UnitSet : Convert(b)
Spec == Init /\ [][Next]_vars
\* the length itself never changes, whatever the chain
Conserved == v + Exponent[u] = Exponent[start]
\* the value depends on the end of the chain only
NoMemory == v = Factor(start, u)

-----------------------------------------------------------------------------
(* The kinds of spellings.  A spelling is <<unit, kind, k>>; the driver knows the text of the prefixes that the kinds   *)
(* "sign" (micro signs) and "misread" (a micro sign written in one encoding and read in another) stand for.             *)
Plain == {<<un, kind, 0>> : un \in UnitSet, kind \in {"short", "SHORT", "long", "LONG", "Long"}}
\* (text with a micro sign instead of the letter, all letter cases)
Signs(ns) == {<<"um", kind, k>> : kind \in {"sign", "SIGN"}, k \in 1..ns} \cup {<<"um", "square", 0>>}
Misread(nm) == {<<"um", "misread", k>> : k \in 1..nm}
NoUnits(nu) == {<<"", "unknown", k>> : k \in 1..nu}
\* every pair of plain spellings and signs, and every misread spelling with representatives, in both directions
Pairs(ns, nm, nu) ==
    LET A == Plain \cup Signs(ns)
        Rep == {<<"m", "short", 0>>, <<"um", "short", 0>>, <<"nm", "Long", 0>>, <<"um", "square", 0>>} IN
    (A \X A) \cup (Misread(nm) \X Rep) \cup (Rep \X Misread(nm)) \cup (NoUnits(nu) \X Rep) \cup (Rep \X NoUnits(nu)) \cup
    {<<s, s>> : s \in Misread(nm)}

Traces == JsonDeserialize(IOEnv.TRACE)
Idle == v = 0 /\ u = "m" /\ start = "m" /\ n = 0
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ Idle
\* an event: the two spellings and the exponent of the answered factor, 99 if no power of ten, -99 if refused with the unit error
Known(s) == s[2] # "unknown"
Verdict(e) == IF Known(e.a) /\ Known(e.b) THEN (IF e.r = Factor(e.a[1], e.b[1]) THEN {} ELSE {"F05:factor"})
              ELSE IF e.r = -99 THEN {} ELSE {"F05:unknown_unit_not_refused"}
TraceNext == /\ l <= Len(Traces[t])
             /\ LET e == Traces[t][l] x == Verdict(e) IN IF x = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> x]))
             /\ l' = l + 1 /\ UNCHANGED <<t, v, u, start, n>>
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* emission of all pairs
EmitInit == Idle /\ t = 0 /\ l = 0
EmitNext == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<t, v, u, start, n>>
            /\ PrintT("@@" \o ToJson([pairs |-> Pairs(atoi(IOEnv.NS), atoi(IOEnv.NM), atoi(IOEnv.NU))]))
EmitSpec == EmitInit /\ [][EmitNext]_vars
=============================================================================
