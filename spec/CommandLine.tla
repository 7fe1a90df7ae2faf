------------------------------ MODULE CommandLine ------------------------------
(* The command line (property C01): what a call has to do with the files.        *)
(* A call of `convert' maps a file or a directory to outputs; a call of `report' *)
(* writes a report for a file or every file of a directory; `report' and `show'  *)
(* apply operations in a fixed order.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANT Design
VARIABLES t, l, chosen
vars == <<t, l>>
R(S) == RandomElement(S)

-----------------------------------------------------------------------------
\* Entries of a directory
Endings == <<<<".sur", ".sur">>, <<".SUR", ".sur">>, <<".sdf", ".sdf">>, <<".Sdf", ".sdf">>, <<".al3d", ".al3d">>, <<".sflz", ".sflz">>, <<".sflz", ".sflz">>, <<".tmd", ".tmd">>, <<".txt", ".txt">>, <<".sur.bak", ".bak">>>>
Supported == {".sur", ".sdf", ".al3d", ".sflz", ".tmd"}
Writable == Supported
Entry(i) == [k \in 1..Len(Endings) |-> [stem |-> R({"a", "b", "c", "a.b", "x y"}), suffix |-> Endings[k][1], lower |-> Endings[k][2],
                                        kind |-> IF R(1..8) = 1 THEN "corrupt" ELSE IF R(1..9) = 1 THEN "dir" ELSE "file"]][R(1..Len(Endings))]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i].stem \o s[i].suffix # s[j].stem \o s[j].suffix
IsInput(x) == x.kind # "dir" /\ x.lower \in Supported

\* convert: the format that is requested
Formats == <<"", "", ".sur", ".sdf", ".al3d", ".sflz", ".tmd", ".xyz", ".foo">>
\* a single file takes the format from the name of the output
Lower(x) == IF x = ".SUR" THEN ".sur" ELSE x
FileFormat(c) == IF c.outsuffix # "" THEN Lower(c.outsuffix) ELSE IF c.format # "" THEN c.format ELSE ".sur"
DirFormat(c) == IF c.format # "" THEN c.format ELSE ".sur"
Format(c) == IF c.input = "file" THEN FileFormat(c) ELSE DirFormat(c)
Refused(c) == Format(c) \notin Writable \/ (c.compressed /\ Format(c) # ".sur")
\* if both an option and a name tell the format of a single file, either may count
Ambiguous(c) == c.input = "file" /\ c.outsuffix # "" /\ c.format # "" /\ c.format # Lower(c.outsuffix)
\* the outputs of a directory: one for every input that can be read; the name is that of the input with the new suffix unless inputs share it
Inputs(c) == SelectSeq(c.entries, IsInput)
\* (also if the output would replace an input)
Shared(c, x) == (c.place = "same" /\ \E i \in 1..Len(Inputs(c)) : Inputs(c)[i].stem \o Inputs(c)[i].suffix = x.stem \o DirFormat(c)) \/ Cardinality({i \in 1..Len(Inputs(c)) : Inputs(c)[i].stem = x.stem}) > 1
Plan(c) == IF Refused(c) THEN <<>>
           ELSE LET ok == SelectSeq(IF c.input = "file" THEN <<c.entries[1]>> ELSE Inputs(c), LAMBDA x : x.kind = "file")
                IN [i \in 1..Len(ok) |-> [input |-> ok[i].stem \o ok[i].suffix, name |-> IF c.input = "file" THEN "" ELSE IF Shared(c, ok[i]) THEN "" ELSE ok[i].stem \o Format(c)]]
Failures(c) == IF Refused(c) THEN <<>>
               ELSE LET f == SelectSeq(IF c.input = "file" THEN <<c.entries[1]>> ELSE Inputs(c), LAMBDA x : x.kind = "corrupt") IN [i \in 1..Len(f) |-> f[i].stem \o f[i].suffix]

-----------------------------------------------------------------------------
\* operations in their order
Flag(n) == R(1..n) = 1
Options(i) == [level |-> Flag(3), fill |-> Flag(2), center |-> Flag(4), zero |-> Flag(4), highpass |-> IF Flag(4) THEN R({"2.5", "6", "0"}) ELSE "", lowpass |-> IF Flag(4) THEN R({"1.5", "3"}) ELSE "",
               bandpass |-> IF Flag(5) THEN R({<<"1", "4">>, <<"1.5", "6">>}) ELSE <<>>, threshold |-> IF Flag(3) THEN R({<<"5", "10">>, <<"1", "0.5">>, <<"0", "0">>, <<"0", "2.5">>}) ELSE <<>>,
               outliers |-> IF Flag(4) THEN R({"0", "1", "2"}) ELSE ""]
Number(x) == IF x THEN 1 ELSE 0
Conflict(o) == Number(o.highpass # "") + Number(o.lowpass # "") + Number(o.bandpass # <<>>) > 1 \/ (o.center /\ o.zero)
When(b, s) == IF b THEN s ELSE <<>>
Operations(o) ==
    When(o.fill, <<[m |-> "fill_nonmeasured", a |-> <<>>]>>)
    \o When(o.level, <<[m |-> "level", a |-> <<>>]>>)
    \o When(o.center, <<[m |-> "center", a |-> <<>>]>>)
    \o When(o.zero, <<[m |-> "zero", a |-> <<>>]>>)
    \o When(o.threshold # <<>>, <<[m |-> "threshold", a |-> o.threshold], [m |-> "fill_nonmeasured", a |-> <<>>]>>)
    \o When(o.outliers # "", <<[m |-> "remove_outliers", a |-> <<o.outliers>>], [m |-> "fill_nonmeasured", a |-> <<>>]>>)
    \o When(o.highpass # "", <<[m |-> "highpass", a |-> <<o.highpass>>]>>)
    \o When(o.lowpass # "", <<[m |-> "lowpass", a |-> <<o.lowpass>>]>>)
    \o When(o.bandpass # <<>>, <<[m |-> "bandpass", a |-> o.bandpass]>>)

-----------------------------------------------------------------------------
GenInit == t = 0 /\ l = 0 /\ chosen = {}
Entries(n) == {[i \in 1..n |-> Entry(i)]}
Convert == l = 0 /\ \E n \in {R({1, 2, 4, 6})} : \E e \in {x \in Entries(n) : Distinct(x)} :
    \E c \in {[command |-> "convert", input |-> IF e[1].kind # "dir" /\ e[1].lower \in Supported /\ R(1..3) = 1 THEN "file" ELSE "dir", entries |-> e, format |-> Formats[R(1..Len(Formats))],
               outsuffix |-> R({"", "", ".SUR", ".sur", ".sdf", ".al3d", ".sflz", ".tmd", ".foo"}), existing |-> R(BOOLEAN), place |-> R({"other", "other", "nested", "same"}),
               compressed |-> R(1..3) = 1, skip |-> R(BOOLEAN)]} :
       /\ (c.place = "same" => \A i \in 1..Len(e) : e[i].kind # "dir" \/ e[i].lower \notin Supported)
       /\ PrintT("@@" \o ToJson(c @@ [refused |-> Refused(c), ambiguous |-> Ambiguous(c), target |-> Format(c), plan |-> Plan(c), failures |-> Failures(c)]))
Process == l = 0 /\ \E n \in {R({1, 1, 2, 3})} : \E e \in {x \in Entries(n) : Distinct(x)} : \E o \in {Options(1)} : \E k \in {R({"report", "report", "show"})} :
    \E c \in {[command |-> k, input |-> IF (e[1].kind # "dir" /\ e[1].lower \in Supported /\ R(1..2) = 1) \/ k = "show" THEN "file" ELSE "dir", entries |-> e, periodic |-> R(BOOLEAN), options |-> o]} :
       (k = "show" => e[1].kind # "dir" /\ e[1].lower \in Supported)
       /\ LET ins == IF c.input = "file" THEN <<e[1]>> ELSE Inputs(c) IN
          PrintT("@@" \o ToJson(c @@ [refused |-> Conflict(o), operations |-> Operations(o),
                 plan |-> IF Conflict(o) THEN <<>> ELSE [i \in 1..Len(ins) |-> [input |-> ins[i].stem \o ins[i].suffix, ok |-> ins[i].kind = "file"]]]))
GenNext == l = 0 /\ UNCHANGED <<t, chosen>> /\ (IF R({l, 1}) = 1 THEN Convert ELSE Process) /\ l' = 1
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
\* Design of the names of outputs: the inputs of a directory are converted in the order of their names; the output of an input is called
\* after its stem, or after its whole name if that is taken by an input or another output, and gets a longer name as long as it is taken.
\* Texts are sequences of letters here.
Words == {<<"a">>, <<"a", ".s">>, <<"a", ".d">>, <<"a", ".s", ".d">>, <<"a", ".d", ".s">>, <<"a", ".s", ".s">>, <<"a", ".s", ".d", ".s">>}
Names2 == {w \in Words : Len(w) > 1}
Stem(w) == SubSeq(w, 1, Len(w) - 1)
Rank(c) == CASE c = "a" -> 1 [] c = ".d" -> 2 [] c = ".s" -> 3 [] OTHER -> 9
RECURSIVE Before(_, _, _)
Before(v, w, i) == IF i > Len(v) THEN i <= Len(w) ELSE IF i > Len(w) THEN FALSE ELSE IF v[i] = w[i] THEN Before(v, w, i + 1) ELSE Rank(v[i]) < Rank(w[i])
RECURSIVE Longer(_, _, _)
Longer(n, f, taken) == IF Append(n, f) \in taken THEN Longer(Append(n, "_"), f, taken) ELSE Append(n, f)
NameOf(w, f, taken, design) == IF design = "stem" THEN Append(Stem(w), f)
                               ELSE IF Append(Stem(w), f) \notin taken THEN Append(Stem(w), f) ELSE Longer(w, f, taken)
RECURSIVE Outputs(_, _, _, _, _)
Outputs(s, i, f, taken, design) == IF i > Len(s) THEN <<>> ELSE LET n == NameOf(s[i], f, taken, design) IN <<n>> \o Outputs(s, i + 1, f, taken \cup {n}, design)
DInit == /\ l = 0 /\ t \in {".s", ".d"} /\ chosen \in SUBSET Names2
DSpec == DInit /\ [][UNCHANGED <<t, l, chosen>>]_<<t, l, chosen>>
Sorted == SetToSortSeq(chosen, LAMBDA v, w : Before(v, w, 1))
NoOutputIsLost == \A samedir \in BOOLEAN : LET o == Outputs(Sorted, 1, t, IF samedir THEN chosen ELSE {}, Design) IN \A i, j \in 1..Len(o) : i # j => o[i] # o[j]
NoInputIsReplaced == LET o == Outputs(Sorted, 1, t, chosen, Design) IN \A i \in 1..Len(o) : o[i] \notin chosen
=============================================================================
