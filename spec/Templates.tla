------------------------------- MODULE Templates -------------------------------
(* Filename templates (property B05).  A template is a text with expressions     *)
(* <name|type|prefix|suffix>; Scan is the state machine that reads it.  A name   *)
(* is searched for the first place where the parts of the template follow one    *)
(* another; from left to right every field is as long as that allows.  All text  *)
(* outside the fields stands for itself.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANTS Mode, MaxTokens
VARIABLES t, l
vars == <<t, l>>
R(S) == RandomElement(S)

-----------------------------------------------------------------------------
\* Characters
Digits == {"0", "1", "2", "5", "7", "9"}
Letters == {"a", "b", "x", "P", "F", "d", "i", "n", "t", "s", "r", "f", "l", "o", "k", "Z"}
IsDigit(c) == c \in Digits
\* text of a sequence of characters
Text(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)

-----------------------------------------------------------------------------
\* Reading a template: [ok, fields, seps]; refused templates have ok = FALSE, "may": a name that cannot label a group
IntType == <<"i", "n", "t">>
FloatType == <<"f", "l", "o", "a", "t">>
StrType == <<"s", "t", "r">>
TypeOf(s) == IF s = IntType THEN "int" ELSE IF s = FloatType THEN "float" ELSE IF s = StrType THEN "str" ELSE ""
RECURSIVE Split(_, _, _)
Split(s, i, cur) == IF i > Len(s) THEN <<cur>> ELSE IF s[i] = "|" THEN <<cur>> \o Split(s, i + 1, <<>>) ELSE Split(s, i + 1, Append(cur, s[i]))
Identifier(s) == s # <<>> /\ ~IsDigit(s[1]) /\ \A i \in 1..Len(s) : s[i] \in Digits \cup Letters \cup {"_"}
Field(s) ==
    LET p == Split(s, 1, <<>>) IN
    [ok |-> Len(p) \in 2..4 /\ TypeOf(p[2]) # "" /\ p[1] # <<>>, name |-> p[1], type |-> IF Len(p) > 1 THEN TypeOf(p[2]) ELSE "",
     prefix |-> IF Len(p) > 2 THEN p[3] ELSE <<>>, suffix |-> IF Len(p) > 3 THEN p[4] ELSE <<>>]
Step(q, c) ==
    IF ~q.ok THEN q
    ELSE IF c = "<" THEN (IF q.inside THEN [q EXCEPT !.ok = FALSE] ELSE [q EXCEPT !.inside = TRUE, !.seps = Append(@, q.cur), !.cur = <<>>])
    ELSE IF c = ">" THEN (IF ~q.inside THEN [q EXCEPT !.ok = FALSE]
                          ELSE LET f == Field(q.cur) IN [q EXCEPT !.inside = FALSE, !.cur = <<>>, !.fields = Append(@, f), !.ok = f.ok])
    ELSE [q EXCEPT !.cur = Append(@, c)]
Scan(s) ==
    LET q == FoldLeft(Step, [ok |-> TRUE, inside |-> FALSE, cur |-> <<>>, fields |-> <<>>, seps |-> <<>>], s)
    IN [ok |-> q.ok /\ ~q.inside /\ q.fields # <<>> /\ \A i, j \in 1..Len(q.fields) : i # j => q.fields[i].name # q.fields[j].name,
        may |-> \E i \in 1..Len(q.fields) : ~Identifier(q.fields[i].name), fields |-> q.fields, seps |-> Append(q.seps, q.cur)]
\* the parts one after the other: text or the type of a field
Parts(x) == FlattenSeq([i \in 1..Len(x.fields) |-> <<[text |-> x.seps[i] \o x.fields[i].prefix, type |-> ""], [text |-> <<>>, type |-> x.fields[i].type],
                                                     [text |-> x.fields[i].suffix, type |-> ""]>>]) \o <<[text |-> x.seps[Len(x.seps)], type |-> ""]>>

-----------------------------------------------------------------------------
\* Searching a name
AllDigits(s, p, e) == p < e /\ \A i \in p..e - 1 : IsDigit(s[i])
Fits(type, s, p, e) ==
    /\ p < e /\ e <= Len(s) + 1
    /\ IF type = "str" THEN TRUE
       ELSE IF type = "int" THEN AllDigits(s, p, e)
       ELSE AllDigits(s, p, e) \/ \E d \in p + 1..e - 2 : s[d] \in {".", ","} /\ AllDigits(s, p, d) /\ AllDigits(s, d + 1, e)
Fail == [ok |-> FALSE, at |-> <<>>]
RECURSIVE Match(_, _, _, _), Longest(_, _, _, _, _)
Match(parts, i, s, p) ==
    IF i > Len(parts) THEN [ok |-> TRUE, at |-> <<>>]
    ELSE IF parts[i].type = ""
         THEN (LET n == Len(parts[i].text) IN IF p + n - 1 <= Len(s) /\ SubSeq(s, p, p + n - 1) = parts[i].text THEN Match(parts, i + 1, s, p + n) ELSE Fail)
         ELSE Longest(parts, i, s, p, Len(s) + 1)
Longest(parts, i, s, p, e) ==
    IF e <= p THEN Fail
    ELSE IF Fits(parts[i].type, s, p, e)
         THEN (LET m == Match(parts, i + 1, s, e) IN IF m.ok THEN [ok |-> TRUE, at |-> <<<<p, e>>>> \o m.at] ELSE Longest(parts, i, s, p, e - 1))
         ELSE Longest(parts, i, s, p, e - 1)
RECURSIVE SearchFrom(_, _, _)
SearchFrom(parts, s, p) == IF p > Len(s) + 1 THEN Fail ELSE LET m == Match(parts, 1, s, p) IN IF m.ok THEN m ELSE SearchFrom(parts, s, p + 1)
Values(parts, s) == LET m == SearchFrom(parts, s, 1) IN [ok |-> m.ok, v |-> [i \in 1..Len(m.at) |-> Text(SubSeq(s, m.at[i][1], m.at[i][2] - 1))]]

-----------------------------------------------------------------------------
\* A name that is built from a template is found in it from its beginning, and every field is found if there is only one way to read it
Readings(x, s) == LET p == Parts(x) IN
    {e \in [1..Len(x.fields) -> (1..Len(s)) \X (2..Len(s) + 1)] :
        /\ \A i \in 1..Len(x.fields) : Fits(x.fields[i].type, s, e[i][1], e[i][2])
        /\ \A i \in 1..Len(x.fields) : e[i][1] = (IF i = 1 THEN 1 ELSE e[i - 1][2] + Len(x.fields[i - 1].suffix)) + Len(x.seps[i]) + Len(x.fields[i].prefix)
        /\ s = FlattenSeq([i \in 1..Len(x.fields) |-> x.seps[i] \o x.fields[i].prefix \o SubSeq(s, e[i][1], e[i][2] - 1) \o x.fields[i].suffix]) \o x.seps[Len(x.seps)]}

Outcome(template, names) ==
    LET x == Scan(template)
        p == Parts(x)
    IN [template |-> Text(template), ok |-> x.ok, may |-> x.may, names |-> [i \in 1..Len(names) |-> Text(names[i])],
        fields |-> IF x.ok THEN [i \in 1..Len(x.fields) |-> [name |-> Text(x.fields[i].name), type |-> x.fields[i].type]] ELSE <<>>,
        values |-> IF x.ok THEN [i \in 1..Len(names) |-> Values(p, names[i])] ELSE <<>>]

-----------------------------------------------------------------------------
\* All templates of few tokens
Tokens == <<<<"<">>, <<">">>, <<"|">>, <<"a">>, IntType, StrType, <<".">>>>
ShortNames == <<<<"a", "1", "0", ".", "a", "7">>, <<".", "2", ",", "5", "a", ".">>, <<"a">>>>
Frame(k) == <<<<"<", "a", "|">>, <<>>>>[k]
Exhaustive == l = 0 /\ \E n \in 0..MaxTokens : \E w \in [1..n -> 1..Len(Tokens)] : \E k \in 1..2 :
    PrintT("@@" \o ToJson(Outcome(Frame(k) \o FlattenSeq([i \in 1..n |-> Tokens[w[i]]]), ShortNames)))

\* Random templates of several fields and names that are built from them, or nearly
Seps == <<<<>>, <<"_">>, <<"_">>, <<"-">>, <<".">>, <<"(", ".", "*", ")">>, <<"^">>, <<"$">>, <<"a", "|", "b">>, <<"\\", "d">>, <<" ">>, <<"+">>, <<"[", "1">>, <<"{", "2", "}">>, <<"x", "?">>, <<"S">>, <<"#">>, <<"_", "_">>>>
Fixes == <<<<>>, <<>>, <<"P">>, <<"F">>, <<"k">>, <<"a", ".">>, <<"(">>, <<"F", "+">>, <<"5">>, <<"[">>, <<"\\">>, <<")">>, <<".">>>>
Names == <<<<"a">>, <<"b">>, <<"x", "_", "1">>, <<"P">>, <<"f", "i", "l">>>>
ValuesOf(type) == IF type = "int" THEN <<<<"7">>, <<"1", "0">>, <<"0", "5">>, <<"2", "1", "9">>, <<"1", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "1">>>>
                  ELSE IF type = "float" THEN <<<<"1">>, <<"1", ".", "5">>, <<"0", ",", "7", "5">>, <<"1", "0", ".", "0">>, <<"2", "5">>>>
                  ELSE <<<<"a">>, <<"a", "b">>, <<"a", "_", "b">>, <<"7">>, <<"x", ".", "1">>, <<"P", "1">>, <<"b", " ", "x">>, <<"+">>>>
RandomField(i, type) == [name |-> Names[IF R(1..9) = 1 THEN R(1..5) ELSE i + R(0..1) * 2], type |-> type, prefix |-> Fixes[R(1..Len(Fixes))], suffix |-> IF R(1..2) = 1 THEN <<>> ELSE Fixes[R(1..Len(Fixes))]]
TypeText(ty) == IF ty = "int" THEN IntType ELSE IF ty = "float" THEN FloatType ELSE StrType
Expression(f) == <<"<">> \o f.name \o <<"|">> \o TypeText(f.type) \o
                 (IF f.suffix # <<>> THEN <<"|">> \o f.prefix \o <<"|">> \o f.suffix ELSE IF f.prefix # <<>> THEN <<"|">> \o f.prefix ELSE <<>>) \o <<">">>
Render(fields, seps) == FlattenSeq([i \in 1..Len(fields) |-> seps[i] \o Expression(fields[i])]) \o seps[Len(seps)]
Build(fields, seps, vals) == FlattenSeq([i \in 1..Len(fields) |-> seps[i] \o fields[i].prefix \o vals[i] \o fields[i].suffix]) \o seps[Len(seps)]
Extra(k) == <<<<>>, <<>>, <<>>, <<"S", "_">>, <<"1">>, <<".", "s">>, <<"_", "2">>>>[k]
Drop(s, k) == IF k \in 1..Len(s) THEN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)) ELSE s
Replace(s, k, c) == IF k \in 1..Len(s) THEN [s EXCEPT ![k] = c] ELSE s
BuiltName(fields, seps, dummy) == Extra(R(1..7)) \o Build(fields, seps, [i \in 1..Len(fields) |-> ValuesOf(fields[i].type)[R(1..Len(ValuesOf(fields[i].type)))]]) \o Extra(R(1..7))
Mutate(s, dummy) == CASE R(1..3) = 1 -> Drop(s, R(1..Len(s) + 1)) [] OTHER -> Replace(s, R(1..Len(s) + 1), R({"_", "1", "a", "<", "|", ">", ".", "5"}))
Simulated == l = 0 /\
    \E n \in {R({1, 1, 2, 3} \ (IF R(1..2) = 1 THEN {3} ELSE {}))} :
    \E types \in {[i \in 1..n |-> R({"int", "float", "str"})]} :
    \E fields \in {[i \in 1..n |-> RandomField(i, types[i])]} :
    \E seps \in {[i \in 1..n + 1 |-> Seps[R(1..Len(Seps))]]} :
    \E template \in {IF R(1..7) = 1 THEN Mutate(Render(fields, seps), 0) ELSE Render(fields, seps)} :
    \E m \in {R(1..4)} :
    \E built \in {[i \in 1..m |-> BuiltName(fields, seps, i)]} :
    \E names \in {[i \in 1..m |-> IF R(1..6) = 1 THEN Mutate(built[i], i) ELSE built[i]]} :
        PrintT("@@" \o ToJson(Outcome(template, names)))
GenInit == t = 0 /\ l = 0
GenNext == (IF Mode = "exhaustive" THEN Exhaustive ELSE Simulated) /\ l' = 1 /\ UNCHANGED t
GenSpec == GenInit /\ [][GenNext]_vars
\* the soundness of the search for all small templates and names
SoundInit == t = 0 /\ l = 0
SoundNext == /\ l = 0 /\ l' = 1 /\ UNCHANGED t
SoundSpec == SoundInit /\ [][SoundNext]_vars
SmallFields == [name : {<<"a">>}, type : {"int", "float", "str"}, prefix : {<<>>, <<"a">>}, suffix : {<<>>, <<"1">>}]
SmallTemplates == {[fields |-> f, seps |-> s] : f \in [1..1 -> SmallFields] \cup {<<x, [y EXCEPT !.name = <<"b">>]>> : x \in SmallFields, y \in {z \in SmallFields : z.suffix = <<>>}},
                                                s \in {<<<<>>, <<>>>>, <<<<"a">>, <<"1">>, <<>>>>}}
SmallNames == UNION {[1..n -> {"a", "1", "."}] : n \in 1..4}
SearchFindsBuiltNames == \A x \in {y \in SmallTemplates : Len(y.seps) = Len(y.fields) + 1} : \A s \in SmallNames :
    LET rs == Readings(x, s) m == SearchFrom(Parts(x), s, 1) IN
    rs # {} =>
       /\ m.ok
       /\ \A r \in rs : m.at[1][1] = r[1][1] /\ (Len(r) = 1 \/ m.at[1] # r[1] => m.at[1][2] >= r[1][2]) /\ (Len(r) = 2 /\ m.at[1] = r[1] => m.at[2][2] >= r[2][2])
=============================================================================
